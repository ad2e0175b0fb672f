"""C01: editing primitives over the line list, and the commands built from them"""
from checks.listview import *

PRIMS = ('get_line_node', 'append_line_node', 'append_undo_node', 'delete_lines', 'move_lines', 'put_buffer_line',
         'append_lines', 'read_stream', 'read_stream_r', 'read_file', 'read_pipe', 'append_from_register', 'copy_lines')


def list_tasks(prog):
    from run import Task
    v = ListView(prog)
    return [Task(v, f, 120, 'list') for f in PRIMS if f in prog.funcs]


def tasks(prog):
    from checks.cmdview import CmdView
    from checks.recview import rec_tasks
    from checks.c03 import PRIM
    from run import Task
    v = CmdView(prog, {'c01'})
    return list_tasks(prog) + rec_tasks(prog) + v.cmd_tasks(prog) + [Task(v, f, 150) for f in PRIM if f in prog.funcs]
