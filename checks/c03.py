"""C03: command functions keep the current line valid and reject invalid addresses without effect"""
from checks.cmdview import *
from checks.dispview import disp_tasks

PRIM = ('delete_lines', 'append_lines', 'read_file', 'read_pipe', 'read_stream', 'read_stream_r', 'append_from_register',
        'copy_lines', 'move_lines', 'join_lines', 'substitute_lines', 'filter_lines', 'put_buffer_line', 'append_line_node',
        'append_undo_node', 'get_line_node', 'get_buffer_line', 'delete_global_nodes', 'reset_global_queue',
        'reset_undo_queue', 'undo_last_command', 'address_range', 'next_address', 'line_address', 
        'mark_global_nodes', 'exec_global', 'get_stream_line', 'get_des_char', 'cbc_decode', 'cbc_encode', 'realloc_buffer', 'put_des_char', 'flush_des_file', 'init_des_cipher', 'handle_winch', 'init_ed_buffer', 'exec_command', 'write_file', 'write_pipe',
        'write_stream', 'put_stream_line')


def tasks(prog):
    from run import Task
    v = CmdView(prog, {'c03'})
    return disp_tasks(prog) + v.cmd_tasks(prog) + [Task(v, f, 150) for f in PRIM if f in prog.funcs]
