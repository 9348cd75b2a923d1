"""Which module holds the harnesses of a property."""

MODULES = {
    "C01": "props.data_range",
    "C02": "props.data_format",
    "C03": "props.data_format",
    "C04": "props.data_format",
    "C05": "props.data_format",
    "C06": "props.chrome_cache",
    "C10": "props.chrome_cache",
    "C07": "props.cpio",
    "C08": "props.utmp",
    "C09": "props.recycle",
    "C11": "props.cookies",
    "C12": "props.cookies",
    "C13": "props.streams",
    "C14": "props.streams",
    "C15": "props.logs",
    "C16": "props.logs",
    "C17": "props.logs",
    "C18": "props.keychain_files",
    "C19": "props.leveldb_files",
    "C20": "props.spotlight",
    "C21": "props.windows",
    "C22": "props.windows",
    "C23": "props.windows",
    "C24": "props.jump_lists",
    "C25": "props.apple_items",
    "C26": "props.apple_items",
    "C27": "props.detection",
    "C28": "props.firefox",
    "C29": "props.wemf",
    "C30": "props.aul_strings",
    "C31": "props.aul_strings",
    "C32": "props.aul_files",
    "C33": "props.aul_log",
    "C34": "props.wmi",
    "C35": "props.wmi",
    "C36": "props.wmi",
    "C37": "props.amcache_hive",
    "C38": "props.aul_script",
    "C39": "props.archiver",
    "C40": "props.script_output",
    "C41": "props.shortcuts",
    "C42": "props.script_mains",
    "C43": "props.vhdx",
    "C44": "props.image_files",
}
