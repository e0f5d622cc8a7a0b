"""What decides each property: design models (TLC, exhaustive) and conformance
drivers (histories of the real library, validated by TLC)."""
W = lambda q, t: dict(driver="world", spec="TraceWorld", n=dict(quick=q, thorough=t), batch=2000)
F = lambda drv, q, t, batch=3000: dict(driver=drv, spec="TraceFn", n=dict(quick=q, thorough=t), batch=batch)
# every sequence of K operations of MCWorld; thorough: longer random behaviours of it as well
P = lambda prop, q, t: dict(driver="replay", spec="TraceWorld", n=dict(quick=q, thorough=t), batch=2000,
                            gen=("MCWorld", dict(quick="MCWorld_%s_emit.cfg" % prop, thorough="MCWorld_%s.cfg" % prop)))
S = lambda prop, t: dict(driver="replay", spec="TraceWorld", n=dict(quick=0, thorough=t), batch=2000,
                         gen=("MCWorld", dict(quick=None, thorough=("MCWorld_%s_long.cfg" % prop, t, 22))))
# scenes of objects whose atoms lie anywhere
FS = lambda q, t: dict(driver="free", spec="TraceFree", n=dict(quick=q, thorough=t), batch=1000)
# programs of generators with strain fields and post-transforms
G = lambda focus, q, t: dict(driver="genplay", spec="TraceGen", n=dict(quick=q, thorough=t), batch=2000,
                             gen=("MCGenProg", dict(quick="MCGenProg_%s_2.cfg" % focus, thorough="MCGenProg_%s_3.cfg" % focus)))
GL = lambda focus, t: dict(driver="genplay", spec="TraceGen", n=dict(quick=0, thorough=t), batch=2000,
                           gen=("MCGenProg", dict(quick=None, thorough=("MCGenProg_%s_long.cfg" % focus, t, 12))))
M = lambda mod, q, t: (mod, dict(quick=["%s_%s.cfg" % (mod, q)], thorough=["%s_%s.cfg" % (mod, t)]))
REG = {
    "C01": dict(drivers=[W(900, 12000), FS(240, 3000), P("C01", 700, 10000), S("C01", 4000)], must=["populate", "prio", "tf", "multi", "mol", "sadd"]),
    "C02": dict(drivers=[W(800, 10000), FS(240, 3000), P("C02", 600, 10000), S("C02", 4000)], must=["populate", "probe", "copy", "madd", "tf"]),
    "C03": dict(models=[M("MCGeom", "hull", "hull_deep")], drivers=[W(1600, 16000)], must=["probe", "addpts", "setpts", "addalg", "setalg"]),
    "C04": dict(models=[M("MCGeom", "cover", "cover_deep")], drivers=[W(1200, 12000)], must=["populate", "setorg", "addgen"]),
    "C05": dict(models=[M("MCGeom", "site", "site_deep")], drivers=[W(700, 8000), F("cells", 600, 6000)], must=["supply", "cell", "setorg", "setstruct", "tf"]),
    "C06": dict(models=[M("MCGeom", "motion", "motion")], drivers=[W(1200, 12000), P("C06", 700, 10000), S("C06", 4000)], must=["tf", "probe", "populate"]),
    "C07": dict(drivers=[W(1200, 12000), P("C07", 900, 10000), S("C07", 4000)], must=["tf", "probe", "populate", "supply"]),
    "C08": dict(drivers=[W(1400, 14000), P("C08", 1000, 10000), S("C08", 4000), F("field", 500, 6000), G("copy", 600, 6000), GL("copy", 2000),
                     dict(driver="mol", spec="TraceMol", n=dict(quick=800, thorough=8000), batch=4000)], must=["m_ori", "m_point", "scene", "setbounds", "f_copy", "g_copy", "g_share", "copy", "tf", "setorg", "setalg", "addpts"]),
    "C09": dict(models=[("MCMolecule", dict(quick=["MCMolecule.cfg"], thorough=["MCMolecule_thorough.cfg"]))],
                drivers=[dict(driver="mol", spec="TraceMol", n=dict(quick=2000, thorough=30000), batch=4000),
                         dict(driver="molplay", spec="TraceMol", n=dict(quick=5000, thorough=20000), batch=4000,
                              gen=("MCMolProg", dict(quick="MCMolProg.cfg", thorough="MCMolProg_deep.cfg"))),
                         dict(driver="molplay", spec="TraceMol", n=dict(quick=0, thorough=6000), batch=4000,
                              gen=("MCMolProg", dict(quick=None, thorough=("MCMolProg_long.cfg", 6000, 12))))],
                must=["m_remove", "m_tf", "m_idx", "m_copy"]),
    "C10": dict(drivers=[F("field", 800, 10000), G("strain", 600, 8000), GL("strain", 3000)], must=["f_app", "g_smat", "g_supply", "g_volume", "f_supply", "f_vol", "f_strain", "f_tf"]),
    "C11": dict(drivers=[F("field", 800, 10000), G("post", 600, 8000), GL("post", 3000)], must=["g_padd", "g_supply", "g_volume", "f_supply", "f_vol", "f_sub", "f_post"]),
    "C12": dict(models=[M("MCAmorph", "single", "single_deep"), M("MCAmorph", "batch", "batch_deep")], drivers=[F("fnutil", 1000, 8000)], must=["amorph"]),
    "C13": dict(drivers=[F("fnutil", 500, 6000),
                         dict(driver="agplay", spec="TraceAGen", n=dict(quick=1200, thorough=12000), batch=3000,
                              gen=("MCAGenProg", dict(quick="MCAGenProg.cfg", thorough="MCAGenProg_deep.cfg"))),
                         dict(driver="agplay", spec="TraceAGen", n=dict(quick=0, thorough=4000), batch=3000,
                              gen=("MCAGenProg", dict(quick=None, thorough=("MCAGenProg_long.cfg", 4000, 14))))],
                must=["am_look", "am_copy", "am_give", "ag_populate", "ag_supply", "ag_reuse", "ag_tf"]),
    "C14": dict(models=[M("MCUtil", "voxels", "voxels_deep")], drivers=[F("fnutil", 1088, 2832, 600)], must=["voxgrid"]),
    "C15": dict(models=[M("MCUtil", "pairs", "pairs_deep")], drivers=[F("fnutil", 600, 8000)], must=["rdf", "sdist"]),
    "C16": dict(models=[M("MCUtil", "splits", "splits_deep")], drivers=[F("fnutil", 160, 4000)], must=["splits", "splitset"]),
    "C20": dict(drivers=[F("rot", 500, 8000)], must=["s2s"]),
    "C27": dict(drivers=[F("rot", 500, 8000)], must=["rot_v", "rot_vtv", "rot_align", "rot_zxz", "vangle"]),
    "C17": dict(drivers=[F("planes", 400, 6000)], must=["snap"]),
    "C25": dict(drivers=[F("planes", 300, 4000)], must=["bb_planes", "bb_alg", "bb_vol", "hull_planes", "prism"]),
    "C18": dict(models=[M("MCStack", "fcc", "fcc_deep")], drivers=[F("stack", 700, 4000)], must=["fcc", "sfratio"]),
    "C19": dict(models=[M("MCStack", "wz", "wz_deep")], drivers=[F("stack", 240, 4000)], must=["wz"]),
    "C21": dict(drivers=[F("surf", 480, 6000)], must=["ads"]),
    "C23": dict(drivers=[F("wulff", 600, 6000)], must=["wulff"]),
    "C24": dict(drivers=[dict(driver="reject", spec="TraceWorld", n=dict(quick=900, thorough=12000), batch=2000)],
                must=["reject", "accept", "populate", "probe"]),
    "C26": dict(drivers=[dict(driver="grains", spec="TraceWorld", n=dict(quick=600, thorough=8000), batch=2000)],
                must=["gb", "populate", "probe", "tf"]),
    "C22": dict(drivers=[W(450, 8000)], must=["export", "populate", "setbounds"]),
}
