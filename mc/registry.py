# property id -> (module in mc/checks, function, evidence level)
CHECKS = {
    'P01': ('p01_expr', 'run', 'model_checking'),
    'P02': ('p02_decl', 'run', 'model_checking'),
    'P03': ('p02_decl', 'run_stmt', 'model_checking'),
    'P04': ('p04_codegen', 'run_parsed', 'model_checking'),
    'P05': ('p04_codegen', 'run_built', 'model_checking'),
    'P06': ('p06_layout', 'run', 'model_checking'),
    'P07': ('p07_reject', 'run', 'model_checking'),
    'P08': ('p08_history', 'run', 'model_checking'),
    'P09': ('p09_literals', 'run', 'model_checking'),
    'P10': ('p10_preprocess', 'run', 'model_checking'),
    'P11': ('p11_nodes', 'run', 'model_checking'),
    'P12': ('p11_nodes', 'run_ident', 'model_checking'),
    'P13': ('p13_opt', 'run', 'model_checking'),
    'P14': ('p14_restructure', 'run', 'model_checking'),
    'P15': ('p15_comb', 'run', 'model_checking'),
    'P16': ('p16_clocked', 'run', 'model_checking'),
    'P17': ('p17_elab', 'run', 'model_checking'),
    'P18': ('p18_merge', 'run', 'model_checking'),
    'P19': ('p19_walk', 'run', 'model_checking'),
    'P20': ('p20_machines', 'run', 'model_checking'),
    'P21': ('p21_ranges', 'run', 'model_checking'),
    'P22': ('p22_active', 'run', 'model_checking'),
    'P23': ('p23_names', 'run', 'model_checking'),
    'P25': ('p25_order', 'run', 'model_checking'),
    'P26': ('p26_trees', 'run', 'model_checking'),
    'P24': ('p24_regen', 'run', 'model_checking'),
}
