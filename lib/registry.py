"""Which specification modules decide which property."""
CHECKS = {
    "P01": {
        "mc": [("EditDistanceMC", "EditDistanceMC_lev"), ("EditDistanceMC", "EditDistanceMC_dam"),
               ("EditDistanceMC", "EditDistanceMC_indel"), ("EditDistanceMC", "EditDistanceMC_laws")],
        "gen": [("EditDistanceGen", None)],
        "gen_thorough": [("EditDistanceGen", "EditDistanceGen_bin3")],
        "driver": "p01_edit",
        "trace": ("EditDistanceTrace", "Trace"),
    },
    "P02": {
        "mc": [("StrSetsMC", None)],
        "gen": [("StrSetsGen", None)],
        "driver": "p02_sets",
        "trace": ("StrSetsTrace", "Trace"),
    },
    "P03": {
        "mc": [("TextMC", None)],
        "gen": [("TextGen", None)],
        "driver": "p03_text",
        "trace": ("TextTrace", "Trace"),
    },
    "P04": {
        "mc": [("KDTree", "KDTree_sql23"), ("KDTree", "KDTree_inf3")],
        "gen": [("NeighboursGen", None)],
        "driver": "p04_knn",
        "trace": ("NeighboursTrace", "Trace"),
    },
    "P05": {
        "mc": [("KDTree", "KDTree_sql23"), ("KDTree", "KDTree_l13"), ("KDTree", "KDTree_inf3"), ("KDTree", "KDTree_eps3")],
        "mc_thorough": [("KDTree", "KDTree_eps"), ("KDTree", "KDTree_eps_sql2"), ("KDTree", "KDTree_sql2"), ("KDTree", "KDTree_l1"), ("KDTree", "KDTree_inf")],
        "gen": [],
        "driver": "p05_kdt",
        "trace": ("NeighboursTrace", "Trace"),
    },
    "P06": {"mc": [("RegressionMC", None)], "gen": [("RegressionGen", None)], "driver": "p06_lr", "trace": ("RegressionTrace", "Trace")},
    "P07": {"mc": [("Rolling", None), ("Rolling", "Rolling_ridge"), ("Rolling", "Rolling_4")], "gen": [("RollingGen", None)], "driver": "p07_roll", "trace": ("RegressionTrace", "Trace")},
    "P08": {"mc": [("OnlineMC", None), ("OnlineMC", "OnlineMC_ridge")], "gen": [], "driver": "p08_model", "trace": ("LinModelTrace", "Trace")},
    "P09": {"mc": [("RegressionMC", None), ("NumMC", None)], "gen": [], "driver": "p09_report", "trace": ("RegressionTrace", "Trace")},
    "P10": {"mc": [("BinaryMC", None), ("NumMC", None)], "gen": [("BinaryGen", None)], "driver": "p10_binary", "trace": ("BinaryTrace", "Trace")},
    "P11": {"mc": [("MetricsMC", None)], "gen": [("MetricsGen", None)], "driver": "p11_metrics", "trace": ("MetricsTrace", "Trace")},
    "P12": {"mc": [("StatsMC", "StatsMC_tests"), ("NumMC", None)], "mc_thorough": [("StatsMC", "StatsMC_all")], "gen": [("HypGen", None)], "gen_thorough": [("HypGen", "HypGen_4")], "driver": "p12_tests", "trace": ("HypTrace", "Trace")},
    "P13": {"mc": [("StatsMC", None)], "mc_thorough": [("StatsMC", "StatsMC_all")], "gen": [("AssocGen", None)], "driver": "p13_assoc", "trace": ("AssocTrace", "Trace")},
    "P14": {"mc": [("SeriesMC", None)], "mc_thorough": [("SeriesMC", "SeriesMC_6")], "gen": [("SeriesGen", None)], "gen_thorough": [("SeriesGen", "SeriesGen_5")], "driver": "p14_series", "trace": ("SeriesTrace", "Trace")},
    "P15": {"mc": [("TransformMC", None)], "mc_thorough": [("TransformMC", "TransformMC_6")], "gen": [("TransformGen", None)], "gen_thorough": [("TransformGen", "TransformGen_5")], "driver": "p15_transform", "trace": ("TransformTrace", "Trace")},
    "P16": {"mc": [("DrawsMC", None)], "gen": [("DrawsGen", None)], "gen_thorough": [("DrawsGen", "DrawsGen_5")], "driver": "p16_draws", "trace": ("DrawsTrace", "Trace")},
    "P17": {"mc": [("PipelineMC", None)], "mc_thorough": [("PipelineMC", "PipelineMC_wide")], "gen": [("PipelineGen", None)], "gen_thorough": [("PipelineGen", "PipelineGen_all")], "driver": "p17_pipeline", "trace": ("PipelineTrace", "PipelineTrace")},
    "P18": {"mc": [], "gen": [], "gen_thorough": [], "driver": "p18_fitted", "trace": ("PipelineTrace", "PipelineTrace")},
    "P19": {"mc": [("SamplingMC", None)], "mc_thorough": [("SamplingMC", "SamplingMC_5")], "gen": [("SamplingGen", None)], "gen_thorough": [("SamplingGen", "SamplingGen_3")], "driver": "p19_sample", "trace": ("SamplingTrace", "Trace")},
    "P20": {"mc": [("EngineMC", None)], "mc_thorough": [("EngineMC", "EngineMC_4")], "gen": [("ContextsGen", None)], "gen_thorough": [("ContextsGen", "ContextsGen_4")], "driver": "p20_context", "trace": ("ContextsTrace", "Trace")},
    "P21": {"mc": [("SchemaMC", None)], "gen": [("SchemaGen", None)], "gen_thorough": [("SchemaGen", "SchemaGen_3")], "driver": "p21_schema", "trace": ("SchemaTrace", "Trace")},
    "P22": {"mc": [("CompatMC", None)], "gen": [("CompatGen", None)], "gen_thorough": [("CompatGen", "CompatGen_all")], "driver": "p22_compat", "trace": ("CompatTrace", "Trace")},
    "P23": {"mc": [("InspectMC", None), ("DependencyMC", None)], "mc_thorough": [("InspectMC", "InspectMC_4"), ("DependencyMC", "DependencyMC_4")], "gen": [("InspectGen", None)], "gen_thorough": [("InspectGen", "InspectGen_3")], "driver": "p23_inspect", "trace": ("InspectTrace", "Trace")},
    "P24": {"mc": [("PlotsMC", None)], "mc_thorough": [("PlotsMC", "PlotsMC_4")], "gen": [("PlotsGen", None)], "gen_thorough": [("PlotsGen", "PlotsGen_5")], "driver": "p24_plots", "trace": ("PlotsTrace", "Trace")},
}
