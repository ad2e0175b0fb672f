"""C02: undo"""
from checks.cmdview import *
from checks.c03 import PRIM
from checks import c01
from checks.undoview import undo_tasks
from checks.recview import rec_tasks


def tasks(prog):
    from run import Task
    v = CmdView(prog, {'c02'})
    return c01.list_tasks(prog) + undo_tasks(prog) + rec_tasks(prog) + v.cmd_tasks(prog) + [Task(v, f, 150) for f in PRIM if f in prog.funcs]
