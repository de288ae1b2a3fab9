"""Random bridi as people write them: conversions, links, FA, tagged terms, tanru, connectives, descriptions, relative clauses, abstractions."""
from . import gen
KOHA = ["ko'a", "ko'e", "ko'i", "ko'o", "ko'u", "fo'a", "fo'e", 'mi', 'do', 'da', 'de', 'ti', 'ta', "zo'e", 'ri', "mi'o", 'ma']
class B:
    def __init__(self, rng): self.r = rng; self.w = []; self.drop = rng.choice([0, .2, .6, .95])
    def p(self, x): return self.r.random() < x
    def o(self, *ws): self.w += ws
    def t(self, w):                         # elidable terminator
        if not self.p(self.drop): self.o(w)
    def tag(self, d):
        k = self.r.random()
        if k < .45: self.o(*(['se'] if self.p(.2) else []), self.r.choice(['bai', "ri'a", 'bau', "ka'a", 'gau', "mu'i", "ni'i"]))
        elif k < .9 or d < 1: self.o(self.r.choice(['pu', 'ca', 'ba', 'vi', 'va', "ze'a", "co'a", "pu'i", "zu'a"]))
        else: self.o("fi'o"); self.selbri(d - 2); self.t("fe'u")
    def sumti(self, d):
        k = self.r.random()
        if d < 1 or k < .5: self.o(self.r.choice(KOHA))
        elif k < .66: self.o(self.r.choice(['lo', 'le', 'la', 'loi'])); self.p(.1) and self.o('re'); self.selbri(d - 1); self.t('ku')
        elif k < .7: self.o('re'); self.selbri(d - 1); self.t('ku')
        elif k < .78:
            self.o('lo'); self.p(.15) and self.o('se'); self.o(self.r.choice(['nu', 'ka', "du'u", 'ni'])); self.subsentence(d - 1); self.t('kei'); self.t('ku')
        elif k < .86:
            self.sumti(d - 2); self.o(self.r.choice(['noi', 'poi'])); self.subsentence(d - 1); self.t("ku'o")
        elif k < .89: self.sumti(d - 2); self.o(self.r.choice(['pe', 'ne', 'goi'])); self.term(d - 2); self.t("ge'u")
        elif k < .92: self.o("tu'a"); self.sumti(d - 1); self.t("lu'u")
        elif k < .96: self.sumti(d - 2); self.o(self.r.choice(['.e', '.a', '.ji', 'joi'])); self.sumti(d - 2)
        elif k < .98: self.o('ge'); self.sumti(d - 2); self.o('gi'); self.sumti(d - 2)
        elif k < .99: self.o('lu'); self.sentence(d - 1); self.t("li'u")
        elif k < .995: self.o('la', self.r.choice(['djan', 'meris', 'alis']))
        else: self.o('li', 'pa'); self.t("lo'o")
    def term(self, d):
        k = self.r.random()
        if k < .66: self.sumti(d)
        elif k < .82: self.o(self.r.choice(['fa', 'fe', 'fi', 'fo', 'fu', 'fa', 'fe', 'fi', 'fai', "fi'a"])); self.sumti(d)
        elif k < .93: self.tag(d); self.sumti(d)
        elif k < .95: self.tag(0); self.o('ku')
        elif k < .98: self.o('na', 'ku')
        else: self.sumti(d)
    def terms(self, d, ns=(0, 1, 1, 2, 2, 3, 4)):
        for _ in range(self.r.choice(ns)): self.term(d - 1)
    def tu2(self, d):
        k = self.r.random()
        if d < 1 or k < .5: self.o(gen.brivla(self.r) if self.p(.5) else self.r.choice(['broda', 'brode', 'brodi', 'klama', 'dunda', 'cusku']))
        elif k < .68: self.o(self.r.choice(['se', 'te', 've', 'xe'])); self.tu2(d - .5)
        elif k < .76: self.o('ke'); self.selbri3(d - 1); self.t("ke'e")
        elif k < .82: self.o('jai'); self.tag(0); self.tu2(d - .5)
        elif k < .84: self.o('jai'); self.tu2(d - .5)
        elif k < .87: self.o(self.r.choice(["na'e", "to'e", "no'e"])); self.tu2(d - .5)
        elif k < .9: self.o(self.r.choice(['nu', 'ka', "du'u"])); self.p(.1) and self.o('nai'); self.subsentence(d - 1); self.t('kei')
        elif k < .92: self.o(self.r.choice(["go'i", "go'a", 'mo', "no'a", "nei"]))
        elif k < .94: self.o('me'); self.sumti(d - 1); self.t("me'u")
        elif k < .97: self.o(self.r.choice(['pa', 're', "so'i", 'ci ze']), self.r.choice(['moi', 'mei', 'si\'e', "cu'o"]))
        elif k < .985: self.o("nu'a", self.r.choice(["su'i", "vu'u", "pi'i"]))
        else: self.o('broda', 'zei', self.r.choice(['brode', 'klama']))
    def tu1(self, d):
        self.tu2(d)
        if d >= 1 and self.p(.3):
            self.o('be'); self.term(d - 1)
            for _ in range(self.r.choice([0, 0, 1, 1, 2])): self.o('bei'); self.term(d - 1)
            self.t("be'o")
    def selbri6(self, d):
        if d >= 2 and self.p(.06): self.o("gu'e"); self.selbri(d - 1); self.o('gi'); self.selbri6(d - 1); return
        self.tu1(d)
        if self.p(.08): self.o('bo'); self.selbri6(d - 1)
    def selbri5(self, d):
        self.selbri6(d)
        if d >= 1 and self.p(.06): self.o(self.r.choice(['je', 'ja', 'joi']), 'bo'); self.selbri5(d - 1)
    def selbri4(self, d):
        self.selbri5(d)
        while d >= 1 and self.p(.16):
            self.o(self.r.choice(['je', 'ja', 'jo', 'joi']))
            if self.p(.25): self.o('ke'); self.selbri3(d - 1); self.t("ke'e")
            else: self.selbri5(d - 1)
    def selbri3(self, d):
        self.selbri4(d)
        while d >= 1 and self.p(.22): self.selbri4(d - 1)
    def selbri(self, d):
        if self.p(.08): self.tag(0)
        while self.p(.06): self.o('na')
        self.selbri3(d)
        while d >= 1 and self.p(.08): self.o('co'); self.selbri3(d - 1)
    def tail3(self, d):
        if d >= 2 and self.p(.1): self.gek(d); return
        self.selbri(d); self.terms(d)
        if self.p(.1): self.o('vau')
    def tail(self, d):
        k = self.r.random()
        self.tail3(d)
        while d >= 1 and self.p(.25):
            g = self.r.choice(["gi'e", "gi'a", "gi'o", "na gi'e", "gi'e nai"]).split(); self.o(*g); k = self.r.random()
            if k < .25: self.p(.2) and self.tag(0); self.o('bo'); self.tail3(d - 1)
            elif k < .5: self.o('ke'); self.tail(d - 1); self.t("ke'e")
            else: self.tail3(d - 1)
            if self.p(.6): self.o('vau'); self.terms(d - 1, (0, 1, 1, 2)); self.t('vau')
    def gek(self, d):
        k = self.r.random()
        if k < .12: self.o('na'); self.gek(d); return
        if k < .24: self.o('ke'); self.gek(d - 1); self.t("ke'e"); return
        self.o(self.r.choice(['ge', 'ga', 'go'])); self.subsentence(d - 1); self.o('gi'); self.subsentence(d - 1); self.o('vau'); self.terms(d - 1, (0, 1, 1, 2)); self.t('vau')
    def sentence(self, d):
        n = len(self.w); self.terms(d, (0, 1, 1, 1, 2, 2, 3))
        if len(self.w) > n and not self.p(self.drop): self.o('cu')
        self.tail(d)
    def subsentence(self, d):
        if self.p(.04): self.terms(d - 1, (1, 1, 2)); self.o("zo'u")
        self.sentence(d)
    def text(self, d):
        while True:
            if self.p(.05): self.o('sei'); self.terms(1, (0, 1, 2)); self.o('cu' if self.p(.5) else ''); self.selbri(1); self.t("se'u")
            self.subsentence(d)
            if not self.p(.2): break
            self.o(self.r.choice(['.i', ".i je", ".i bo", ".i to", ".ni'o"]))
            if self.w[-1] == '.i to': self.w[-1] = 'to'; self.subsentence(d - 1); self.o('toi', '.i')
        return ' '.join(w for w in self.w if w)
