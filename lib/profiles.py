"""What each property's check explores: models (exhaustive) and random sessions."""
import gen_codec as gc
import gen_text as gt
import gen_abi as ga
import gen_json as gj
import gen_codegen as gg
import gen_conc as gn

NOCORRUPT = {"open", "poke", "tz", "gen"}

PROFILES = {
    "C01": {"n": (700, 6000), "gen": ga.mix((gc.c01, 1), (gc.longs, .02), (gc.full(gc.hugelen, 999), 1))},
    "C02": {"n": (600, 6000), "gen": ga.mix((gc.c02, 1), (gc.live, .05), (gc.variants, .08), (gc.growth, .012), (gc.wide, .2), (gc.full(gc.hugeslice, 999), 1))},
    "C03": {"n": (500, 5000), "gen": ga.mix((gc.c03, 1), (gc.longs, .02), (gc.full(gc.hugechain, 999), 1))},
    "C04": {"n": (500, 5000), "gen": ga.mix((gc.c04, 1), (gc.owners, .05), (gc.longs, .02), (gc.growth, .008), (gc.rounds, .08), (gc.wide, .06), (gc.huge, .04))},
    "C05": {"n": (300, 3000), "gen": ga.mix((gc.c05, 1), (gc.variants, .06), (gc.longs, .06), (gc.wide, .08), (gc.huge, .1), (ga.hugeabi, .05))},
    "C06": {"n": (700, 7000), "gen": ga.mix((gc.c06, .75), (gc.deep, .08), (ga.hostile, .3))},
    "C07": {"n": (550, 5000), "gen": ga.mix((gc.c07, 1), (gc.wide, .04), (gc.huge, .05))},
    "C08": {"n": (350, 3500), "gen": ga.mix((gc.c08, .8), (gc.wide, .08), (gc.huge, .1), (ga.hugeabi, .05), (ga.faults, .25))},
    "C09": {"n": (400, 4000), "gen": ga.mix((gc.c09, .8), (gc.longs, .04), (gc.wide, .08), (gc.huge, .1), (ga.hugeabi, .05), (ga.chunks, .25))},
    "C10": {"n": (500, 5000), "gen": ga.mix((gc.c10, 1), (gc.owners, .1), (gc.variants, .04), (gc.wide, .05), (gc.growth, .015))},
    "C11": {"n": (400, 4000), "gen": ga.mix((gc.c11, .6), (gc.live, .2), (gc.owners, .2), (ga.owners, .1), (gc.rounds, .03), (ga.reuse, .3), (gt.texts, .4))},
    "C12": {"n": (500, 5000), "gen": ga.mix((ga.c12, .9), (ga.history, .12), (ga.wideabi, .05), (ga.suffixes, .1), (ga.families, .35), (ga.owners, .05), (ga.hugeabi, .03))},
    "C13": {"n": (500, 5000), "gen": ga.mix((ga.c13, .9), (ga.history, .1), (ga.wideabi, .05), (ga.suffixes, .1), (ga.families, .35), (ga.owners, .05), (ga.hugeabi, .03))},
    "C14": {"n": (900, 9000), "gen": ga.mix((ga.c14, .9), (ga.history, .04), (ga.wideabi, .014), (ga.suffixes, .15), (ga.hugeabi, .03))},
    "C15": {"n": (400, 4000), "gen": ga.c15},
    "C16": {"n": (400, 4000), "gen": ga.mix((gc.c16, .6), (ga.c16, .5), (ga.suffixes, .2))},
    "C17": {"n": (400, 4000), "gen": ga.mix((ga.c17, .8), (ga.history, .12), (ga.wideabi, .08), (gj.c17j, .3))},
    "C18": {"n": (1500, 15000), "gen": gt.c18},
    "C19": {"n": (1500, 15000), "gen": gt.c19},
    "C20": {"n": (1500, 15000), "gen": gt.c20},
    "C21": {"n": (1500, 12000), "gen": gt.c21},
    "C22": {"n": (1500, 12000), "gen": gt.c22},
    "C23": {"n": (1500, 12000), "gen": gt.c23},
    "C24": {"n": (400, 3000), "gen": gt.c24},
    "C25": {"n": (250, 2500), "gen": gt.c25},
    "C26": {"n": (700, 4000), "gen": gt.c26},
    "C27": {"n": (600, 3000), "gen": gt.c27},
    "C28": {"n": (500, 5000), "gen": gj.c28},
    "C29": {"n": (700, 5000), "prepare": gg.prepare},
    "C30": {"n": (350, 2500), "gen": gn.c30, "race": True},
}

def mc(prop, module, cfg, cfgT=None, min=1, cap=20000, expect=None):
    PROFILES[prop].setdefault("mc", []).append(dict({"module": module, "cfg": cfg, "min": min, "cap": cap, "expect": expect}, **({"cfgT": cfgT} if cfgT else {})))

# behaviours generated exhaustively from the specification
mc("C02", "MC_Codec", "MC_streamTT", "MC_streamD", 1000)
mc("C05", "MC_Codec", "MC_cutsTT", "MC_cutsD", 1000)
mc("C08", "MC_Codec", "MC_faultsT", "MC_faultsD", 1000, 40000)
mc("C10", "MC_Codec", "MC_reuseT", "MC_reuseD", 1000)
mc("C16", "MC_Codec", "MC_ext", "MC_extT", 500)
mc("C16", "MC_Codec", "MC_extreuse", None, 500)
mc("C12", "MC_Schema", "MC_schema", "MC_schemaT", 500)
mc("C15", "MC_Schema", "MC_schema", "MC_schemaT", 500)
for p, g in (("C18", "name"), ("C19", "asset"), ("C20", "int"), ("C21", "time"), ("C22", "hex"), ("C23", "b58")):
    mc(p, "MC_Text", "MC_text_" + g, "MC_text_" + g + "T", 500, 60000)
mc("C26", "MC_Hash", "MC_hash", "MC_hashT", 500)
mc("C30", "MC_Conc", "MC_conc_neg", expect="violated")
mc("C30", "MC_Conc", "MC_conc_codec", "MC_conc_codecT", 500, 3000)
mc("C30", "MC_Conc", "MC_conc_maps", "MC_conc_mapsT", 50, 3000)
mc("C30", "MC_Conc", "MC_conc_mixed", "MC_conc_mixedT", 50)
mc("C07", "MC_Codec", "MC_paths", "MC_pathsT", 300)
mc("C07", "MC_Codec", "MC_cust", "MC_custT", 1000)
mc("C09", "MC_Codec", "MC_chunks", "MC_chunksT", 1000)
mc("C09", "MC_Codec", "MC_chunksE", None, 1000, 4000)
mc("C11", "MC_Codec", "MC_again", "MC_againT", 300)
mc("C06", "MC_Codec", "MC_bytes", "MC_bytesT", 500)
mc("C16", "MC_Codec", "MC_bytesE", None, 500, 600)
mc("C04", "MC_Codec", "MC_mix", None, 4000)
mc("C01", "MC_Kinds", "MC_kinds_prim", "MC_kinds_primT", 3000)
mc("C03", "MC_Kinds", "MC_kinds_chain", "MC_kinds_chainT", 2000)
mc("C24", "MC_Keys", "MC_keys_ck", "MC_keys_ckT", 1000)
mc("C25", "MC_Keys", "MC_keys_parts", None, 1000)
mc("C25", "MC_Keys", "MC_keys_places", "MC_keys_placesT", 500)
mc("C13", "MC_Schema", "MC_schema13", "MC_schemaT", 500)
mc("C14", "MC_Schema", "MC_schema14", "MC_schema14T", 500)
mc("C16", "MC_SchExt", "MC_schextT", None, 1000)
mc("C17", "MC_Doc", "MC_doc", "MC_docT", 300)
mc("C28", "MC_Kinds", "MC_kinds_json", "MC_kinds_jsonT", 1500)
mc("C27", "MC_Kinds", "MC_kinds_digest", "MC_kinds_digestT", 400)
mc("C12", "MC_Live", "MC_live", "MC_liveT", 250)
mc("C13", "MC_Live", "MC_live", "MC_liveT", 250)
mc("C17", "MC_Live", "MC_live", "MC_liveT", 250)
