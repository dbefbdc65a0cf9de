"""What each property's check runs: the proof obligations and the concrete comparison behind them."""
import subprocess
import time
import traceback

import conform
import spec
import suites

PARSER_OF = {"C08": "casualdate", "C09": "casualtime", "C10": "weekday", "C11": "deadline", "C12": "ago", "C13": "later",
             "C14": "relative", "C15": "week", "C16": "iso", "C17": "monthday", "C18": "month", "C19": "time", "C20": "holiday"}
REFINER_OF = {"C21": "overlap", "C22": "datetime", "C23": "range", "C24": "timezone"}
PROPS = ["C%02d" % i for i in range(1, 28)]


class Run:
    def __init__(self, prop, tier, seed, build, known):
        self.prop, self.tier, self.seed, self.build, self.known = prop, tier, seed, build, known
        self.k = 1 if tier == "quick" else 12
        self.violations = []
        self.known_lines = []
        self.cases = self.distinct = 0
        self.samples = []
        self.proof = None
        self.notes = []
        self.suites = []

    # ------------------------------------------------------------ concrete comparison
    def record(self, name, out):
        c, k, bad, s = out
        self.cases += c
        self.distinct += k
        self.samples += s[:2]
        self.suites.append("%s: %d cases, %d failures" % (name, c, len(bad)))
        for q, msg, ans in bad[:5]:
            self.violations.append({"input": q, "what": msg, "answer": ans, "from": name})

    def concrete(self, drv, san, tool):
        p, k, seed = self.prop, self.k, self.seed
        P = spec.PARSERS
        if p in PARSER_OF:
            self.record("phrases", suites.parses(drv, [PARSER_OF[p]], seed, 4000 * k))
        elif p in REFINER_OF:
            self.record("lists", suites.refiner(drv, REFINER_OF[p], seed, 4000 * k))
        elif p in ("C01", "C02"):
            self.record("programs of component operations", suites.comps(drv, seed, 4000 * k))
        elif p == "C03":
            self.record("programs of result operations", suites.results(drv, seed, 4000 * k))
        elif p == "C04":
            self.record("renderings", suites.render(drv, seed, 4000 * k))
        elif p == "C05":
            self.record("dates at the limits", suites.possible(drv, seed, 4000 * k))
            self.record("phrases of all parsers", suites.parses(drv, P, seed, 400 * k))
        elif p == "C06":
            self.record("texts of several phrases", suites.scans(drv, P, seed, 400 * k))
        elif p == "C07":
            self.record("hostile texts", suites.robust(drv, P, seed, 500 * k))
            self.record("hostile texts under sanitizers", suites.robust(san, P, seed + 1, 300 * k))
            self.long_blanks(drv)
        elif p == "C25":
            self.record("two orders of the same calls", suites.history(drv, P, seed, 150 * k))
        elif p == "C26":
            self.record("number words and durations", suites.numbers(drv, seed, 4000 * k))
        elif p == "C27":
            self.record("texts on the command line", suites.tool(tool, seed, 500 * k))
            self.long_blanks_tool(tool)

    def long_blanks(self, drv):
        """Long runs of blanks: std::regex recurses once per character it repeats over."""
        for key, text in (("long-blanks", "last" + " " * 100000 + "night"),):
            a = drv.run(["parse casualdate 2019-03-13_10:20:30 " + conform.hx(text)])[0]
            if a.startswith(("CRASH", "EXCEPTION")):
                self.finding(key, "parse casualdate 2019-03-13_10:20:30 <last, 100000 blanks, night>", a)

    def long_blanks_tool(self, tool):
        p = subprocess.run([tool, "last" + " " * 100000 + "night", "2019-03-13 10:20:30"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if p.returncode != 0:
            self.finding("long-blanks", "tool '<last, 100000 blanks, night>' '2019-03-13 10:20:30'", "exit status %d" % p.returncode)

    def finding(self, key, inp, ans):
        for k, t in self.known:
            if k == key:
                self.known_lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, t))
                return
        self.violations.append({"input": inp, "what": "does not return normally", "answer": ans, "from": key})

    # ------------------------------------------------------------ all of it
    def go(self):
        b = self.build
        import concurrent.futures as cf
        ex = cf.ThreadPoolExecutor(4)
        fd = ex.submit(b.driver)
        fs = ex.submit(b.driver, True) if self.prop == "C07" else None
        ft = ex.submit(b.tool) if self.prop == "C27" else None
        fi = ex.submit(b.ir, "tool_unit.cpp" if self.prop == "C27" else "unit.cpp")
        drv = conform.Driver(fd.result())
        san = conform.Driver(fs.result(), env={"ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=3000", "PATH": "/usr/bin:/bin"}) if fs else None
        try:
            import prove
            self.proof = prove.prove(self, fi.result(), san or drv)
        except Exception:
            self.notes.append("the verifier could not run: " + traceback.format_exc()[-1500:])
        self.concrete(drv, san, ft.result() if ft else None)
        # a concrete failing input is reported before a bare failed obligation
        self.violations.sort(key=lambda v: not v["input"])

    def summary(self):
        out = []
        if self.proof:
            out += self.proof.lines()
        return out + self.suites + self.notes

    def replay_text(self):
        out = []
        for v in self.violations[:10]:
            out.append("property: %s\nfailed: %s\n%s\nanswer of the code: %s\ninput (a request line of driver/driver.cpp): %s\n" % (
                self.prop, v["from"], v["what"], str(v.get("answer"))[:2000], v["input"] or "none found"))
        return "\n".join(out + self.summary()) + "\n"

    def evidence(self):
        cov = {"evaluations": self.cases, "distinct_nontrivial": self.distinct,
               "rule": "generated phrases, texts, lists or programs of calls; distinct request lines are counted",
               "samples": self.samples[:5], "concrete_suites": self.suites}
        level = "exploration"
        assumptions = []
        if self.proof:
            cov.update(self.proof.coverage())
            level = self.proof.level
            assumptions = self.proof.assumptions()
        if self.notes:
            cov["notes"] = self.notes
        return {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                "assumptions": assumptions, "violations": len(self.violations)}
