"""What runs for which property."""
import json, os

# in-package harness parts: package -> [(harness dir, directory in the repository)]
INPACKAGE = {"inferryd": [("inferryd", "src/ferryd")]}
# where a harness package is built, when not src/zverif/<pkg>
TARGET = {"inferryd": "./src/ferryd"}


LEVEL = {p: "fault_enumeration" for p in ("C08", "C26", "C28", "C29", "C38")}


def core(q=120, t=600, **kw):
    return {"runs": [dict(pkg="vcore", test="TestCore", checks={"quick": q, "thorough": t}, **kw)]}


SUITES = {p: core() for p in ("C01", "C02", "C03", "C04", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C27")}

SUITES["C06"] = core(70, 400)
SUITES["C05"] = {"runs": [dict(pkg="vcore", test="TestCore", checks={"quick": 10, "thorough": 60}, fakexz=False),
                          dict(pkg="vcore", test="TestCore", checks={"quick": 30, "thorough": 300})]}
SUITES["C36"] = {"runs": [dict(pkg="vio", test="TestRead", checks={"quick": 700, "thorough": 2500})]}
SUITES["C07"] = {"runs": [dict(pkg="vio", test="TestEscape", checks={"quick": 2000, "thorough": 20000}, fakexz=False),
                          dict(pkg="vio", test="TestIndexText", checks={"quick": 450, "thorough": 2500})]}
SUITES["C19"] = {"runs": [dict(pkg="vio", test="TestDelta", checks={"quick": 800, "thorough": 4000}),
                          dict(pkg="vio", test="TestDelta", checks={"quick": 15, "thorough": 100}, fakexz=False),
                          dict(pkg="vio", test="TestDeltaJob", checks={"quick": 300, "thorough": 1500})]}
SUITES["C30"] = {"runs": [dict(pkg="vio", test="TestMalformed", checks={"quick": 150, "thorough": 2000}),
                          dict(pkg="vio", test="TestMalformedPayload", checks={"quick": 60, "thorough": 600}),
                          dict(pkg="vio", test="TestMalformedPayload", checks={"quick": 10, "thorough": 60}, fakexz=False),
                          dict(pkg="vio", test="TestMalformedAssets", checks={"quick": 100, "thorough": 1000}),
                          dict(pkg="vio", test="TestMalformedManifest", checks={"quick": 100, "thorough": 1000})]}
SUITES["C25"] = {"runs": [dict(pkg="vdb", test="TestKV", checks={"quick": 600, "thorough": 2000}, fakexz=False),
                          dict(pkg="vdb", test="TestKVKnown", checks={"quick": 1, "thorough": 1}, shards=1, rounds=1, fakexz=False)]}
SUITES["C26"] = {"runs": [dict(pkg="vdb", test="TestBatch", checks={"quick": 150, "thorough": 1500}, fakexz=False)]}

SUITES["C24"] = {"runs": [dict(pkg="vcore", test="TestJobs", checks={"quick": 120, "thorough": 500}),
                          dict(pkg="vcore", test="TestJobsKnown", checks={"quick": 1, "thorough": 1}, shards=1, rounds=1)]}

SUITES["C18"] = {"runs": [dict(pkg="vcore", test="TestTransit", checks={"quick": 250, "thorough": 1000})]}

SUITES["C08"] = {"runs": [dict(pkg="vcore", test="TestIndexFault", checks={"quick": 30, "thorough": 60}, rewrite=True)]}
SUITES["C28"] = {"runs": [dict(pkg="vcore", test="TestCrash", checks={"quick": 50, "thorough": 200}, rewrite=True)]}
SUITES["C29"] = {"runs": [dict(pkg="vcore", test="TestFault", checks={"quick": 80, "thorough": 200}, rewrite=True)]}

STOP = dict(pkg="vd", test="TestStop", checks={"quick": 1, "thorough": 4}, fakexz=False, bins=True, shards=3)
SUITES["C21"] = {"runs": [dict(pkg="vjobs", test="TestQueue", checks={"quick": 150, "thorough": 1200}, fakexz=False)]}
SUITES["C21"]["runs"].append(dict(STOP, shards=2))
SUITES["C22"] = {"runs": [dict(pkg="vjobs", test="TestHistory", checks={"quick": 150, "thorough": 400}, fakexz=False),
                          dict(pkg="vjobs", test="TestHistoryText", checks={"quick": 150, "thorough": 1000}, fakexz=False)]}
SUITES["C23"] = {"runs": [dict(pkg="vjobs", test="TestConcurrent", checks={"quick": 400, "thorough": 1000}, fakexz=False)]}


SUITES["C38"] = {"runs": [STOP, dict(pkg="vjobs", test="TestQueueCrash", checks={"quick": 60, "thorough": 600}, fakexz=False)]}

SUITES["C32"] = {"runs": [dict(pkg="vd", test="TestRequests", checks={"quick": 250, "thorough": 800}, fakexz=False, bins=True),
                          dict(pkg="vd", test="TestErrors", checks={"quick": 60, "thorough": 500}, fakexz=False, shards=2),
                          dict(pkg="vd", test="TestRaw", checks={"quick": 15, "thorough": 100}, fakexz=False, bins=True, shards=2)]}
SUITES["C37"] = {"runs": [dict(pkg="vd", test="TestWatch", checks={"quick": 200, "thorough": 800}, fakexz=False, bins=True),
                          dict(pkg="vd", test="TestWatchStall", checks={"quick": 1, "thorough": 5}, fakexz=False, bins=True, shards=2)]}
SUITES["C35"] = {"runs": [dict(pkg="vd", test="TestCommands", checks={"quick": 400, "thorough": 500}, fakexz=False, bins=True),
                          dict(pkg="vd", test="TestImport", checks={"quick": 900, "thorough": 1500}, fakexz=False, bins=True)]}
SUITES["C39"] = {"runs": [dict(pkg="vd", test="TestShow", checks={"quick": 500, "thorough": 1500}, fakexz=False, bins=True)]}
SUITES["C41"] = {"runs": [dict(pkg="vd", test="TestSocket", checks={"quick": 120, "thorough": 300}, fakexz=False, bins=True)]}
SUITES["C40"] = {"runs": [dict(pkg="vcore", test="TestPurge", checks={"quick": 200, "thorough": 500}, rewrite=True)]}
SUITES["C42"] = {"runs": [dict(pkg="vd", test="TestStop", checks={"quick": 1, "thorough": 12}, fakexz=False, bins=True)]}
SUITES["C43"] = {"runs": [dict(pkg="vcore", test="TestCore", checks={"quick": 40, "thorough": 300}),
                          dict(pkg="vcore", test="TestFault", checks={"quick": 20, "thorough": 150}, rewrite=True),
                          dict(pkg="vio", test="TestDelta", checks={"quick": 300, "thorough": 2000}),
                          dict(pkg="vio", test="TestDeltaJob", checks={"quick": 80, "thorough": 500}),
                          dict(pkg="vio", test="TestMalformed", checks={"quick": 60, "thorough": 600}),
                          dict(pkg="vio", test="TestMalformedPayload", checks={"quick": 40, "thorough": 300}),
                          dict(pkg="vio", test="TestMalformedAssets", checks={"quick": 40, "thorough": 300}),
                          dict(pkg="vd", test="TestErrors", checks={"quick": 30, "thorough": 200}, fakexz=False, shards=2)]}
SUITES["C44"] = {"runs": [dict(pkg="vcore", test="TestCore", checks={"quick": 40, "thorough": 300}),
                          dict(pkg="vcore", test="TestStatus", checks={"quick": 15, "thorough": 150}, bins=True),
                          dict(pkg="vcore", test="TestJobs", checks={"quick": 25, "thorough": 200}),
                          dict(pkg="vjobs", test="TestQueue", checks={"quick": 60, "thorough": 600}, fakexz=False),
                          dict(pkg="vjobs", test="TestHistoryText", checks={"quick": 60, "thorough": 600}, fakexz=False),
                          dict(pkg="vjobs", test="TestStoredJobs", checks={"quick": 150, "thorough": 2000}, fakexz=False),
                          dict(pkg="vd", test="TestWire", checks={"quick": 100, "thorough": 1000}, fakexz=False),
                          dict(pkg="vd", test="TestRequests", checks={"quick": 60, "thorough": 400}, fakexz=False, bins=True)]}
SUITES["C45"] = {"runs": [dict(pkg="vcore", test="TestCore", checks={"quick": 80, "thorough": 500}),
                          dict(pkg="vcore", test="TestCore", checks={"quick": 6, "thorough": 60}, fakexz=False),
                          dict(pkg="vcore", test="TestTransit", checks={"quick": 60, "thorough": 500}),
                          dict(pkg="vcore", test="TestFault", checks={"quick": 15, "thorough": 100}, rewrite=True)]}
SUITES["C46"] = {"runs": [dict(pkg="vio", test="TestDelta", checks={"quick": 300, "thorough": 2000}),
                          dict(pkg="vio", test="TestDeltaJob", checks={"quick": 100, "thorough": 600}),
                          dict(pkg="vcore", test="TestCore", checks={"quick": 90, "thorough": 500}),
                          dict(pkg="vcore", test="TestTransit", checks={"quick": 60, "thorough": 500})]}
SUITES["C47"] = {"runs": [dict(pkg="vcore", test="TestSchedule", checks={"quick": 150, "thorough": 2000}, rewrite=True)]}
SUITES["C33"] = {"runs": [dict(pkg="vcore", test="TestStatus", checks={"quick": 40, "thorough": 500}, bins=True),
                          dict(pkg="vcore", test="TestListLive", checks={"quick": 25, "thorough": 300})]}
SUITES["C34"] = {"runs": [dict(pkg="inferryd", test="TestLock", checks={"quick": 300, "thorough": 3000}, fakexz=False, rewrite=True),
                          dict(pkg="vd", test="TestDaemons", checks={"quick": 20, "thorough": 300}, fakexz=False, bins=True)]}


def known(verif, pid, key):
    """The text of a listed known finding."""
    with open(os.path.join(verif, "KNOWN_FINDINGS.jsonl")) as fh:
        for line in fh:
            if line.strip() and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid and d["key"] == key:
                    return d["what"]
    return None
SUITES["C48"] = {"runs": [dict(pkg="vd", test="TestRude", checks={"quick": 2, "thorough": 24}, fakexz=False, bins=True)]}
SUITES["C20"]["runs"] = SUITES["C20"]["runs"] + [dict(pkg="vio", test="TestDeltaJob", checks={"quick": 100, "thorough": 600})]
SUITES["C04"]["runs"] = SUITES["C04"]["runs"] + [dict(pkg="vio", test="TestDeltaJob", checks={"quick": 80, "thorough": 500})]
