"""property -> rule module; the rule is the function of the property's name"""
_M = {"pkt": "C01 C02 C03", "hs": "C04 C05", "keys": "C06", "dh": "C07 C09", "conn": "C12 C13", "pipe": "C14 C15", "disp": "C16 C17 C24", "opts": "C28 C29", "start": "C26 C27", "netio": "C19 C20", "daemon": "C18", "drbg": "C08", "evloop": "C21", "imm": "C37", "timer": "C22", "dns": "C23", "spipe": "C25", "secret": "C11", "ctr": "C34", "addr": "C30", "leak": "C31", "size": "C33", "hw": "C32", "wipe": "C10"}
TABLE = {p: (m, p) for m, ps in _M.items() for p in ps.split()}
