"""Weights of the random operations: the general mixture, and what each property stresses."""

CORE = {}          # the general mixture of gen_ops.rs


def mk(p_hook=0.25, max_ops=140, max_nodes=12, **kw):
    w = {k[2:]: v for k, v in kw.items() if k.startswith("w_")}
    rest = {k: v for k, v in kw.items() if not k.startswith("w_")}
    return dict(p_hook=p_hook, max_ops=max_ops, max_nodes=max_nodes, w=w, **rest)


P = {
    "P01": mk(w_add=14, w_addn=12, w_addp=3, w_free=8, w_rmc=8, w_name=6, w_td=3),
    "P02": mk(w_add=16, w_addn=20, w_name=20, w_free=5, w_rmc=5, w_addp=4, names=18, max_nodes=16, w_use=2, w_ptr=2),
    "P03": mk(w_add=20, w_addn=8, w_addp=5, w_sl=5, w_br=5, w_cl=4, w_ap=6, w_free=7, w_name=5),
    "P04": mk(p_hook=0.45, w_add=20, w_addn=10, w_sl=8, w_br=6, w_cl=6, w_ap=4, w_free=9, w_rmc=5, w_addp=3),
    "P05": mk(p_hook=0.4, w_process=35, w_add=12, w_addn=9, w_free=8, w_rmc=6, w_sleep=3, w_queue=1, w_terminate=0, w_post=3, w_use=2, w_unw=0),
    "P06": mk(p_hook=0.35, w_process=30, w_mode=14, w_pause=8, w_unpause=8, w_add=8, w_queue=2, w_terminate=0, w_post=2, w_use=2, w_unw=0),
    "P07": mk(p_hook=0.3, max_ops=60, w_process=30, w_queue=8, w_terminate=2, w_pause=4, w_unpause=3, w_free=5, w_post=8, w_add=8),
    "P08": mk(p_hook=0.45, w_free=20, w_rmc=18, w_add=18, w_addn=12, w_process=14, w_terminate=0, max_nodes=14),
    "P09": mk(w_ptr=30, w_use=40, w_add=12, w_addn=10, w_free=12, w_rmc=6, w_unw=4),
    "P10": mk(w_grid=25, w_abs=12, w_raw=12, w_ptr=12, w_name=10, w_add=12, w_addn=8, w_free=5, deep=True),
    "P11": mk(w_sing=30, w_singx=8, w_grid=14, w_free=8, w_rmc=6, w_add=10, w_addn=8, w_post=6),
    "P12": mk(w_conn=25, w_disc=15, w_emit=25, p_hook=0.55, max_nodes=6, w_add=4, w_addn=4, w_free=8, w_rmc=4, w_br=3, w_cl=3, w_sl=2),
    "P13": mk(w_post=40, w_sing=8, w_name=8, w_add=8, w_free=4, w_hdr=1, w_ftr=1),
    "P14": mk(max_ops=80, w_post=40, w_add=14, w_addn=8, w_process=10, w_hdr=3, w_ftr=3, w_unw=3, max_nodes=20, verb="All"),
    "P14deep": mk(max_ops=60, w_post=40, w_add=30, w_process=6, w_hdr=3, w_ftr=3, max_nodes=45, deep=True, max_tree_depth=24, verb="NoDebug"),
    "BIG": mk(share=0.15, p_hook=0.12, max_ops=45, max_nodes=90, max_uid=400, scene=30, max_tree_depth=40, w_add=30, w_addn=8, w_process=8, w_free=8, w_rmc=4, w_sl=6, w_br=4, w_cl=3, w_ap=3,
              w_td=5, w_grid=6, w_abs=4, w_queue=0, w_terminate=0, w_unw=0, w_use=2, w_stray=1, w_emit=1, w_conn=1, w_shs=0),
    "HUGE": mk(share=0.05, full=True, p_hook=0.01, max_ops=14, max_nodes=600, max_uid=1500, scene=290, max_tree_depth=700, w_add=12, w_addn=14, w_name=6, w_process=8, w_free=8, w_rmc=8, w_sl=2, w_br=4, w_cl=2, w_ap=0,
               w_td=5, w_grid=6, w_abs=6, w_nodes=3, w_queue=0, w_terminate=0, w_unw=0, w_use=2, w_stray=1, w_emit=1, w_conn=1, w_shs=0, w_post=4),
    "LONG": mk(share=0.1, calm=True, p_hook=0.04, max_ops=1500, max_nodes=5, max_uid=2000, w_process=90, w_addn=60, w_add=6, w_free=45, w_rmc=25, w_conn=40, w_disc=20, w_emit=45, w_sing=6, w_ptr=6, w_use=6,
               w_post=4, w_mode=3, w_queue=0, w_terminate=0, w_sleep=0, w_stray=1, w_shs=0, w_td=1, w_grid=2, w_abs=1),
    "MANY": mk(share=0.1, many=True, calm=True, p_hook=0.02, max_ops=600, max_nodes=70, max_uid=800, scene=25, w_add=12, w_addn=20, w_conn=70, w_disc=8, w_emit=10, w_sing=40, w_grid=20, w_ptr=60, w_use=60, w_free=1, w_rmc=1,
               w_queue=0, w_terminate=0, w_stray=1, w_shs=0, w_process=4, w_sleep=0, w_nodes=6),
    "NEST": mk(share=0.3, p_hook=0.85, max_depth=24, max_ops=260, max_nodes=20, max_uid=300, w_add=20, w_addn=20, w_free=14, w_rmc=8, w_process=10, w_emit=6, w_conn=8, w_queue=0, w_terminate=0, w_unw=0, w_stray=3),
    "P15": mk(w_sl=30, w_mk=20, w_ap=12, w_scv=8, w_br=6, w_add=12, w_sc=8, w_sh=10, w_fw=6),
    "P16": mk(w_cl=20, w_br=25, w_ap=15, w_mk=10, w_scv=16, w_sc=14, w_sh=16, w_shs=8, w_add=14, w_fw=8, w_fv=6, w_sl=6),
    "P17": mk(w_fw=20, w_fv=20, w_ft=12, w_fr=20, w_fq=10, w_br=8, w_sl=8, w_cl=8, w_add=14, w_scv=4),
    "P20": mk(w_unw=40, max_ops=60, w_ptr=14, w_add=10, w_free=6),
    "P22": mk(w_use=50, w_ptr=25, w_add=10, w_addn=8, w_free=8),
    "P24": mk(w_td=25, w_nodes=30, w_add=14, w_addn=8, w_free=8, w_rmc=5, max_nodes=16),
    "P26": mk(p_hook=0.45, w_stray=40, w_free=14, w_rmc=10, w_add=16, w_addn=10, w_process=10, w_mk=6, w_name=6),
    "P27": mk(p_hook=0.5, w_free=20, w_rmc=14, w_add=20, w_addn=10, w_process=24, w_terminate=0, w_queue=1, w_br=4, w_cl=4, w_sl=3, max_nodes=14),
    "P28": mk(p_hook=0.4, max_ops=90, twin="turns", names=6, w_sing=6, w_sl=6, w_br=4, w_cl=4, w_conn=6, w_emit=6, w_post=8, w_name=8, w_free=8),
    "P28t": mk(p_hook=0.3, max_ops=90, twin="threads", names=6, w_sing=6, w_sl=8, w_br=4, w_cl=4, w_conn=6, w_emit=6, w_post=8, w_name=8, w_free=8),
    "P25": mk(w_conn=15, w_disc=5, w_emit=20, w_add=14, w_addn=8, p_hook=0.35, w_free=8, w_br=3, w_cl=3),
}
