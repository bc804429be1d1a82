"""Which specification, behaviours and observations decide which property."""

LEDGER_MODEL = {"spec": "Ledger", "module": "MCLedger", "quick": {"MaxNext": 5}, "thorough": {"MaxNext": 7}}


def ledger(groups, quick, thorough):
    return {"spec": "Ledger", "module": "GenLedger", "cmd": "ledger", "groups": groups, "quick": quick, "thorough": thorough}


MIXED = {"num": 160, "depth": 50}
CALM = {"num": 160, "depth": 60, "consts": {"WDelSnap": 1, "WDelAcct": 2, "WRestart": 0}}
LQ = [MIXED, CALM]
LT = [{"num": 1200, "depth": 80, "seeds": 3}, {"num": 1200, "depth": 90, "seeds": 2, "consts": {"WDelSnap": 1, "WDelAcct": 2, "WRestart": 0}}]
FORGE = [{"num": 160, "depth": 50, "consts": {"WForge": 40}}, {"num": 120, "depth": 60, "consts": {"WForge": 40, "WDelSnap": 1, "WDelAcct": 2, "WRestart": 0}}]
FORGET = [{"num": 1200, "depth": 80, "seeds": 3, "consts": {"WForge": 40}}, {"num": 1200, "depth": 90, "seeds": 2, "consts": {"WForge": 40, "WDelSnap": 1, "WDelAcct": 2, "WRestart": 0}}]


CONC = {"WRestart": 0, "WDelSnap": 2, "WDelAcct": 3}


def beside(quick, thorough, race):  # readers beside the operations
    return dict(ledger(["conc", "index", "bal"], quick, thorough), race=race, procs=3, tries=20)


def builtin(groups, quick, thorough):
    return {"spec": "Builtin", "module": "GenBuiltin", "cmd": "builtin", "groups": groups, "quick": quick, "thorough": thorough}


def bmodel(part, q, t):
    return {"spec": "Builtin", "module": "MCBuiltin", "quick": {"Part": '"%s"' % part, "MaxNext": q}, "thorough": {"Part": '"%s"' % part, "MaxNext": t}}


def bprof(num, depth, q, a, g, jump, seeds=1):
    return {"num": num, "depth": depth, "seeds": seeds, "consts": {"WQ": q, "WA": a, "WG": g, "WJump": jump}}


def bshare(prof):  # several registrations pay to the same address
    return dict(prof, consts=dict(prof["consts"], WWd=80, WRev=8))


def quota(groups, quick, thorough):
    return {"spec": "Quota", "module": "GenQuota", "cmd": "quota", "groups": groups, "quick": quick, "thorough": thorough}


QUOTA_MODEL = {"spec": "Quota", "module": "MCQuota", "quick": {"MaxNext": 3}, "thorough": {"MaxNext": 4, "MaxTip": 3}}
QDEEP = {"num": 80, "depth": 60, "consts": {"WDeep": 60}}
QDEEPT = {"num": 600, "depth": 80, "seeds": 2, "consts": {"WDeep": 60, "MaxTip": 3000}}



def cons(groups):
    def prof(num, depth, n, per, rep, iv, rc, rr, cn, nn, seeds=1):
        return {"num": num, "depth": depth, "seeds": seeds, "consts": {"N": n, "Per": per, "Rep": rep, "Iv": iv, "Rc": rc, "Rr": rr, "CN": cn, "NNames": nn}}

    def profs(num, depth, seeds=1):
        return [prof(num, depth, 3, 1, 1, 400, 1, 5, 3, 6, seeds), prof(num, depth, 4, 2, 2, 75, 2, 6, 2, 7, seeds), prof(num, depth, 6, 1, 1, 100, 1, 8, 4, 8, seeds)]
    return {"spec": "Consensus", "module": "GenConsensus", "cmd": "consensus", "groups": groups, "quick": profs(104, 110), "thorough": profs(1500, 200, 3)}


CONS_MODEL = {"spec": "Consensus", "module": "MCConsensus", "quick": {"MaxLen": 4}, "thorough": {"MaxLen": 5}}


def dex(groups):
    a, b = {"WAgent": 20}, {"WAgent": 30, "DecDiv": 100, "MinAmt": 20, "MarketMax": 3000}
    return {"spec": "Dex", "module": "GenDex", "cmd": "dex", "groups": groups,
            "quick": [{"num": 128, "depth": 150, "consts": a}, {"num": 128, "depth": 150, "consts": b}],
            "thorough": [{"num": 1200, "depth": 220, "seeds": 2, "consts": a}, {"num": 1200, "depth": 220, "seeds": 2, "consts": b}]}


DEX_FUNDS = {"spec": "Dex", "module": "MCDex", "quick": {"MaxCalls": 6}, "thorough": {"MaxCalls": 7}}
DEX_CAP = {"num": 1, "depth": 425, "consts": {"BuyType": 0, "Extra": 2}}
DEX_BOOK = {"spec": "Dex", "module": "MCBook", "quick": {"MaxOrders": 3}, "thorough": {"MaxOrders": 4}}

FORK_MODEL = {"spec": "Fork", "module": "MCFork", "quick": {"N": 4, "Cnt": 2, "Per": 2, "Prods": "{1, 2}"}, "thorough": {"N": 5, "Cnt": 2, "Per": 3, "Prods": "{1, 2}"}}
FORK_IRR = {"Cnt": 3, "Per": 6, "NProd": 4}


def fork(groups, quick, thorough):
    return {"spec": "Fork", "module": "GenFork", "cmd": "fork", "groups": groups, "shards": 64, "quick": quick, "thorough": thorough}


CHECKS = {
    "C01": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["bal"], LQ, LT)]},
    "C02": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["index", "clist"], LQ, LT)]},
    "C03": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["rollback", "bal", "sto", "clist", "index", "history", "onroad"],
                               [{"num": 100, "depth": 45, "consts": {"WDelSnap": 8, "WDelAcct": 9, "WRestart": 1}}],
                               [{"num": 1000, "depth": 70, "seeds": 3, "consts": {"WDelSnap": 8, "WDelAcct": 9, "WRestart": 1}}]),
                        quota(["rollback"], [QDEEP], [QDEEPT])]},
    "C04": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["bal", "sto", "clist", "index", "history", "onroad"],
                               [{"num": 100, "depth": 45, "consts": {"WCrash": 5, "WCrashDel": 3, "WRestart": 1}}],
                               [{"num": 1000, "depth": 70, "seeds": 3, "consts": {"WCrash": 5, "WCrashDel": 3, "WRestart": 1}}])]},
    "C28": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [beside([{"num": 160, "depth": 60, "consts": CONC}], [{"num": 1500, "depth": 80, "seeds": 2, "consts": CONC}], False),
                        beside([{"num": 48, "depth": 50, "consts": CONC}], [{"num": 500, "depth": 70, "seeds": 2, "consts": CONC}], True)]},
    "C29": {"level": "model_checking", "models": [{"spec": "Rounds", "module": "MCRounds", "quick": {"MaxH": 6}, "thorough": {"MaxH": 7}}],
            "replays": [{"spec": "Builtin", "module": "GenRounds", "cmd": "builtin", "groups": ["round"],
                         "quick": [{"num": 480, "depth": 80, "consts": {"WRestart": 10}}, {"num": 480, "depth": 80, "consts": {"WRestart": 40}}],
                         "thorough": [{"num": 2000, "depth": 120, "seeds": 3, "consts": {"WRestart": 10}}, {"num": 2000, "depth": 120, "seeds": 3, "consts": {"WRestart": 40}}]}]},
    "C05": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["history"], LQ, LT)]},
    "C13": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["vm", "sto"], LQ, LT)]},
    "C06": {"level": "model_checking", "models": [FORK_MODEL],
            "replays": [fork(["rest", "state", "irr"], [{"num": 64, "depth": 250}, {"num": 64, "depth": 250, "consts": FORK_IRR}],
                             [{"num": 640, "depth": 300, "seeds": 2, "consts": {"N": 18}}, {"num": 640, "depth": 300, "seeds": 2, "consts": dict(FORK_IRR, N=18)}])]},
    "C20": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["onroad"], LQ, LT)]},
    "C21": {"level": "model_checking", "models": [LEDGER_MODEL],
            "replays": [ledger(["verify"], FORGE, FORGET)]},
    "C14": {"level": "model_checking", "models": [QUOTA_MODEL],
            "replays": [quota(["quota"], [{"num": 120, "depth": 60}, QDEEP], [{"num": 1000, "depth": 90, "seeds": 2}, QDEEPT])]},
    "C15": {"level": "model_checking", "models": [bmodel("Q", 4, 5)],
            "replays": [builtin(["stake", "money"], [bprof(160, 80, 100, 0, 0, 60), bprof(60, 70, 100, 30, 30, 20)],
                                [bprof(1200, 110, 100, 0, 0, 60, 2), bprof(800, 90, 100, 40, 40, 30, 2)])]},
    "C16": {"level": "model_checking", "models": [bmodel("G", 4, 5)],
            "replays": [builtin(["gov", "money"], [bprof(120, 80, 0, 0, 100, 0), bshare(bprof(90, 80, 0, 0, 100, 0)), bprof(60, 70, 40, 40, 100, 5)],
                                [bprof(1500, 100, 0, 0, 100, 0, 2), bshare(bprof(1000, 100, 0, 0, 100, 0, 2)), bprof(800, 90, 40, 40, 100, 10, 2)]),
                        {"spec": "Builtin", "module": "FindBuiltin", "cmd": "builtin", "groups": ["gov"], "demo": True,
                         "quick": [{"num": 1, "depth": 19}], "thorough": [{"num": 1, "depth": 19}]}]},
    "C17": {"level": "model_checking", "models": [bmodel("A", 6, 7)],
            "replays": [builtin(["asset", "money"], [bprof(160, 80, 0, 100, 0, 0), bprof(60, 70, 30, 100, 30, 5)],
                                [bprof(1500, 100, 0, 100, 0, 0, 2), bprof(800, 90, 40, 100, 40, 10, 2)])]},
    "C09": {"level": "model_checking", "models": [{"spec": "Tree", "module": "MCTree", "quick": {"MaxB": 6}, "thorough": {"MaxB": 7}}],
            "replays": [{"spec": "Tree", "module": "GenTree", "cmd": "tree", "groups": ["tree"],
                         "quick": [{"num": 1500, "depth": 80}], "thorough": [{"num": 20000, "depth": 120, "seeds": 4}]}]},
    "C10": {"level": "model_checking", "models": [{"spec": "Batch", "module": "MCBatch", "quick": {"MaxI": 6}, "thorough": {"MaxI": 7}}],
            "replays": [{"spec": "Batch", "module": "GenBatch", "cmd": "batch", "groups": ["batch"],
                         "quick": [{"num": 800, "depth": 80}], "thorough": [{"num": 10000, "depth": 120, "seeds": 3}]}]},
    "C11": {"level": "model_checking", "models": [CONS_MODEL], "replays": [cons(["elect"])]},
    "C12": {"level": "model_checking", "models": [CONS_MODEL], "replays": [cons(["stats"])]},
    "C18": {"level": "model_checking", "models": [DEX_BOOK],
            "replays": [dex(["match"]),
                        {"spec": "Dex", "module": "FindDex", "cmd": "dex", "groups": ["match"], "demo": True,
                         "quick": [{"num": 1, "depth": 420}], "thorough": [{"num": 1, "depth": 420}]},
                        {"spec": "Dex", "module": "FindDex", "cmd": "dex", "groups": ["match"], "quick": [DEX_CAP], "thorough": [DEX_CAP]}]},
    "C07": {"level": "model_checking", "models": [{"spec": "Store", "module": "MCStore", "quick": {"MaxTick": 6}, "thorough": {"MaxTick": 7}}],
            "replays": [{"spec": "Store", "module": "GenStore", "cmd": "store", "groups": ["store"],
                         "quick": [{"num": 500, "depth": 80}, {"num": 200, "depth": 80, "consts": {"WRoll": 120, "WCrash": 20}}],
                         "thorough": [{"num": 4000, "depth": 120, "seeds": 3}, {"num": 3000, "depth": 120, "seeds": 3, "consts": {"WRoll": 120, "WCrash": 20}}]}]},
    "C08": {"level": "model_checking", "models": [{"spec": "Blocks", "module": "MCBlocks", "quick": {"MaxId": 7}, "thorough": {"MaxId": 9}}],
            "replays": [{"spec": "Blocks", "module": "GenBlocks", "cmd": "blocks", "groups": ["files"],
                         "quick": [{"num": 240, "depth": 100}, {"num": 240, "depth": 140, "consts": {"WBack": 60, "WCrash": 8}}, {"num": 160, "depth": 100, "consts": {"WBack": 60, "WCrash": 30}}],
                         "thorough": [{"num": 2000, "depth": 140, "seeds": 3}, {"num": 2000, "depth": 200, "seeds": 3, "consts": {"WBack": 60, "WCrash": 8}}, {"num": 2000, "depth": 140, "seeds": 3, "consts": {"WBack": 60, "WCrash": 30}}]}]},
    "C23": {"level": "model_checking", "models": [{"spec": "Wallet", "module": "MCWallet", "quick": {"Seeds": "{1}"}, "thorough": {"Seeds": "{1, 2}"}}],
            "replays": [{"spec": "Wallet", "module": "GenWallet", "cmd": "wallet", "groups": ["wallet"],
                         "quick": [{"num": 96, "depth": 60}],
                         "thorough": [{"num": 600, "depth": 100, "seeds": 3}, {"num": 300, "depth": 100, "seeds": 1, "consts": {"Max0": 30}}]}]},
    "C24": {"level": "model_checking", "models": [{"spec": "Sync", "module": "MCSync", "quick": {"Top": 4}, "thorough": {"Top": 5}}, LEDGER_MODEL],
            "replays": [{"spec": "Sync", "module": "GenSync", "cmd": "synccache", "groups": ["cache"],
                         "quick": [{"num": 400, "depth": 60}], "thorough": [{"num": 4000, "depth": 80, "seeds": 3}]},
                        ledger(["sync"], LQ, LT)]},
    "C25": {"level": "model_checking", "models": [{"spec": "Events", "module": "MCEvents", "quick": {"MaxOps": 5}, "thorough": {"MaxOps": 6}}, LEDGER_MODEL],
            "replays": [ledger(["events"], LQ, LT)]},
    "C26": {"level": "model_checking", "models": [LEDGER_MODEL], "replays": [ledger(["api"], LQ, LT)]},
    "C27": {"level": "model_checking", "models": [bmodel("Q", 4, 5), bmodel("G", 4, 5), bmodel("A", 6, 7)],
            "replays": [builtin(["api"], [bprof(40, 60, 100, 0, 0, 60), bprof(40, 60, 0, 0, 100, 0), bprof(30, 60, 0, 100, 0, 0), bprof(24, 60, 50, 50, 50, 5)],
                                [bprof(300, 90, 100, 0, 0, 60, 2), bprof(300, 90, 0, 0, 100, 0, 2), bprof(300, 90, 0, 100, 0, 0, 2), bprof(200, 90, 50, 50, 50, 5)]),
                        ledger(["capi"], [{"num": 60, "depth": 60}, {"num": 30, "depth": 70, "consts": {"WDelSnap": 1, "WDelAcct": 2, "WRestart": 0}}], LT)]},
    "C22": {"level": "model_checking", "models": [{"spec": "VM", "module": "MCVM", "quick": {"Len0": 3}, "thorough": {"Len0": 4}}],
            "replays": [{"spec": "VM", "module": "GenVM", "cmd": "vm", "groups": ["result", "quota", "effects", "read"],
                         "quick": [{"num": 1200, "depth": 9000}, {"num": 300, "depth": 9000, "consts": {"WBig": 70, "Size0": 8}}],
                         "thorough": [{"num": 12000, "depth": 9000, "seeds": 3}, {"num": 3000, "depth": 9000, "seeds": 3, "consts": {"WBig": 70, "Size0": 8}},
                                      {"num": 3000, "depth": 9000, "seeds": 2, "consts": {"Size0": 60, "Calls": 6}}]},
                        {"spec": "VM", "module": "FindVM", "cmd": "vm", "groups": ["result"], "demo": True,
                         "quick": [{"num": 1, "depth": 60}], "thorough": [{"num": 1, "depth": 60}]}]},
    "C19": {"level": "model_checking", "models": [DEX_FUNDS, DEX_BOOK], "replays": [dex(["funds"])]},
}
