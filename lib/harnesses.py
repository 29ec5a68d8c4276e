CORE = ['utils', 'value', 'expr', 'intfc', 'exec', 'xml']
HARNESSES = {
    'h_exec': (['h_exec.cc'], CORE, ''),
    'h_value': (['h_value.cc'], ['utils', 'value', 'expr', 'intfc'], ''),
    'h_lookup': (['h_lookup.cc'], CORE, ''),
    'h_app': (['h_app.cc'], CORE + ['app'], ''),
    'h_queue': (['h_queue.cc'], ['utils', 'value', 'expr', 'intfc', 'app', 'exec', 'xml'], ''),
    'h_load': (['h_load.cc'], CORE, ''),
    'h_udp': (['h_udp.cc'], CORE + ['app', 'udputils', 'udp'], ''),
    'h_ipc': (['h_ipc.cc'], CORE + ['app', 'ipc', 'ipcutils'], ''),
    'h_listen': (['h_listen.cc'], CORE + ['app', 'sockets', 'luv'], ''),
    'h_uexec': (['h_uexec.cc'], CORE + ['app', 'sockets', 'luv', 'plandebug'], ''),
    'h_script': (['h_script.cc'], CORE + ['app', 'testexec'], ''),
    'h_sim': (['h_sim.cc'], ['utils', 'value', 'sim'], ''),
    'h_launch': (['h_launch.cc'], CORE + ['app'], ''),
    'h_msg': (['h_msg.cc'], CORE + ['app'], ''),
    'h_conf': (['h_conf.cc'], CORE + ['app'], ''),
    'h_time': (['h_time.cc'], CORE + ['app'], ''),
    'h_expr': (['h_expr.cc'], CORE, ''),
}
