"""Which scenario decides which property."""

PROPS = {
    "T01": {"scn": "scn_lb", "live": True},
    "T02": {"scn": "scn_lb"},
    "T03": {"scn": "scn_lb"},
    "T04": {"scn": "scn_lb"},
    "T05": {"scn": "scn_lb"},
    "T06": {"scn": "scn_lb"},
    "T07": {"scn": "scn_lb"},
    "E01": {"scn": "scn_member"},
    "E02": {"scn": "scn_member"},
    "E03": {"scn": "scn_member"},
    "E05": {"scn": "scn_member"},
    "E06": {"scn": "scn_member"},
    "E04": {"scn": "scn_client", "live": True},
    "C01": {"scn": "scn_client", "live": True},
    "C02": {"scn": "scn_client", "live": True},
    "C03": {"scn": "scn_client", "live": True},
    "C04": {"scn": "scn_client", "live": True},
    "C05": {"scn": "scn_client", "live": True},
    "C06": {"scn": "scn_client", "live": True},
    "C07": {"scn": "scn_client", "live": True},
    "C08": {"scn": "scn_client", "live": True},
    "C09": {"scn": "scn_ctl", "live": True},
    "C10": {"scn": "scn_ctl", "live": True},
    "H01": {"scn": "scn_hub"},
    "H02": {"scn": "scn_hub"},
    "H03": {"scn": "scn_hub"},
    "H04": {"scn": "scn_hub"},
    "H05": {"scn": "scn_hub"},
    "H06": {"scn": "scn_db"},
    "K01": {"scn": "scn_cluster", "live": True},
    "K02": {"scn": "scn_cluster", "live": True},
    "K03": {"scn": "scn_cluster", "live": True},
    "K04": {"scn": "scn_files", "live": True},
    "K05": {"scn": "scn_app", "live": True},
    "H07": {"scn": "scn_hub"},
}
