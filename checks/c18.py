"""C18: only documented commands act"""
from checks.cmdview import *


def tasks(prog):
    from run import Task
    v = CmdView(prog, {'c18'})
    return v.cmd_tasks(prog) + [Task(v, f, 150) for f in ('exec_command',) if f in prog.funcs]
