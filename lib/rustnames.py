"""How Python names must appear in Rust."""
# Python identifiers that are (strict or reserved) Rust keywords
KEYWORDS = """abstract become box const crate do dyn enum extern false final fn impl let loop macro match mod move mut
override priv pub ref self Self static struct super trait true type typeof unsafe unsized use virtual where
as async await break continue else for if in return try while yield""".split()
# Keywords that cannot even be written as raw identifiers
UNUTTERABLE = ["crate", "self", "Self", "super", "_"]
RESERVED = ["get_type", "obj", "py", "repr", "str"]
BLOCKLIST = ["builtins", "testing", "tests", "test"]
RAW = [k for k in KEYWORDS if k not in UNUTTERABLE]


def rs(name):
    """Rust spelling of a name, None if there is none."""
    if name in UNUTTERABLE:
        return None
    return f"r#{name}" if name in KEYWORDS else name


def fn_name(name):
    return rs(name) or f"f_{name}"


def struct_name(name):
    return rs(name) or f"s_{name}"


def unraw(name):
    return name[2:] if name.startswith("r#") else name
