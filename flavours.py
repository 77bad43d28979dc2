# property: how the harness is built (plain, race detector, instrumented os) and the level
_T = {
    "C01": ("", "exploration"),
    "C02": ("os,sync", "fault_enumeration"),
    "C03": ("race,os,sync", "exploration"),
    "C04": ("", "exploration"),
    "C05": ("os,sync", "exploration"),
    "C06": ("", "exploration"),
    "C07": ("race,sync", "exploration"),
    "C08": ("race,sync", "exploration"),
    "C09": ("sync", "exploration"),
    "C10": ("os,sync", "fault_enumeration"),
    "C11": ("", "exploration"),
    "C12": ("", "fault_enumeration"),
    "C13": ("", "fault_enumeration"),
    "C14": ("", "fault_enumeration"),
    "C15": ("", "fault_enumeration"),
    "C16": ("", "exploration"),
    "C17": ("", "fault_enumeration"),
    "C18": ("", "exploration"),
    "C19": ("", "exploration"),
    "C20": ("", "exploration"),
    "C21": ("", "exploration"),
    "C22": ("", "exploration"),
    "C23": ("", "exploration"),
    "C24": ("", "exploration"),
    "C25": ("race", "exploration"),
    "C26": ("", "exploration"),
    "C28": ("race,sync", "exploration"),
    "C29": ("os,sync", "fault_enumeration"),
    "C30": ("os,sync", "exploration"),
    "C31": ("sync", "exploration"),
    "C32": ("race", "exploration"),
}
FLAVOURS = {k: v[0] for k, v in _T.items()}
LEVELS = {k: v[1] for k, v in _T.items()}
