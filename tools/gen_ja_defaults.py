#!/usr/bin/env python3
"""Pins the default lists of the Japanese filter (run once, at the pinned commit)."""
import json
def lines(p):
    for l in open(p, encoding="utf-8").read().split("\n"):
        l = l.rstrip("\r")
        if l.startswith("#"):
            continue
        l = l.split("#")[0]
        if l:
            yield l
a = "/repo/filter/ja/asset/"
tags = [(t.split("-") + ["*"] * 4)[:max(4, len(t.split("-")))] for t in lines(a + "stop_tags.txt")]
json.dump({"tags": tags, "words": list(lines(a + "stop_words.txt")), "base": [["動詞"], ["形容詞"], ["形容動詞"]]},
          open("/verif/spec/ja_defaults.json", "w"), ensure_ascii=False, indent=0)
