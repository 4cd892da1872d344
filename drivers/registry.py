DRIVERS = {
    "C01": "uvd_select",
    "C02": "uvd_reorder",
    "C03": "uvd_combine",
    "C04": "uvd_access",
    "C05": "uvd_phase",
    "C06": "uvd_phase",
    "C07": "uvd_avg",
    "C08": "uvd_avg",
    "C09": "uvd_io",
    "C10": "cal",
    "C11": "cal",
    "C12": "cal",
    "C13": "uvd_io",
    "C14": "uvd_io",
    "C15": "beam",
    "C16": "beam",
    "C17": "beam",
    "C18": "flag",
    "C19": "flag",
    "C20": "apply",
    "C21": "calio",
    "C22": "life",
    "C23": "red",
    "C24": "math_",
    "C25": "obj",
    "C26": "new_",
    "C27": "labels",
    "C28": "tele",
    "C29": "uvd_ms",
    "C30": "cal_ms",
    "C31": "mirm",
}
