"""C08: command functions keep the modified status truthful; unsaved changes are not discarded silently"""
from checks.cmdview import *
from checks.c03 import PRIM


def tasks(prog):
    from run import Task
    v = CmdView(prog, {'c08'})
    return v.cmd_tasks(prog) + [Task(v, f, 150) for f in PRIM if f in prog.funcs]
