#!/usr/bin/env python3
"""Lists the fix commits of /repo in known-findings.json (run by hand)."""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWNER = {
    "data_range": "C01", "utmp": "C08", "data_format": "C02", "cpio": "C07",
    "recycle": "C09", "chrome_cache": "C06", "safari_cookies": "C11",
    "tzif": "C12", "cups_ipp": "C13", "gzipfile": "C14", "fseventsd": "C14",
    "asl": "C15", "bsm": "C16", "systemd": "C17", "keychain": "C18",
    "leveldb": "C19", "indexeddb": "C19", "spotlight": "C20",
    "job": "C21", "usn": "C22", "rp_": "C23", "jump_list": "C24",
    "alias": "C25", "bookmark": "C26", "detection": "C27", "firefox": "C28",
    "wemf": "C29", "wmf": "C29", "emf": "C29", "unified_logging": "C33", "aul": "C33", "wmi": "C34",
    "amcache": "C37", "vhdx": "C43", "decode_nskeyedarchiver": "C39"}
SUBJECT = {
    "unified logging script": "C38",
    "dsc": "C32", "uuidtext": "C32", "timesync record with": "C32",
    "UUID value of": "C31", "Open Directory": "C31", "a date and time": "C31",
    "negative error": "C31", "format string": "C30", "zero value": "C30",
    "character value": "C30", "place holders": "C30",
    "empty byte stream": "C33"}
WMI = {"WMI repository file": "C36", "recursive hierarchy": "C36",
       "UINT32": "C35", "property": "C35", "qualifier": "C35",
       "super class": "C35", "class definition": "C35",
       "of a WMI instance": "C35", "descriptors": "C35"}
SCRIPT = {"jump list script": "C41", "of a shell item shown": "C41",
          "USN journal script": "C40", "Spotlight script": "C40",
          "keychain script": "C40", "WMI script": "C40",
          "LevelDB script": "C40", "IndexedDB scripts": "C40"}
REVERTED = ("06809c7",)


def git(*args):
    return subprocess.run(["git", "-C", "/repo", *args], check=True,
                          capture_output=True, text=True).stdout


def main():
    path = os.path.join(HERE, "known-findings.json")
    with open(path, encoding="utf-8") as file_object:
        content = json.load(file_object)
    fixed = content["fixed"]
    seen = {entry.split()[2] for entry in fixed}
    for row in git("log", "--reverse", "--format=%h %s").splitlines():
        commit, _, subject = row.partition(" ")
        if not subject.startswith("fix: ") or any(
                commit.startswith(x) or x.startswith(commit) for x in seen):
            continue
        if commit.startswith(REVERTED):
            continue
        names = git("show", "--name-only", "--format=", commit).split()
        name = os.path.basename(names[0])
        owner = next(v for k, v in OWNER.items() if name.startswith(k))
        if name.startswith(("unified_logging", "aul")):
            owner = next((v for k, v in SUBJECT.items() if k in subject),
                         owner)
        if name.startswith("wmi"):
            owner = next((v for k, v in WMI.items() if k in subject), owner)
        if names[0].startswith("scripts/"):
            owner = next((v for k, v in SCRIPT.items() if k in subject),
                         owner)
        fixed.append(f"fixed: property={owner} {commit} {subject[5:]}")
        print(fixed[-1])
    with open(path, "w", encoding="utf-8") as file_object:
        json.dump(content, file_object, indent=1)
        file_object.write("\n")


main()
