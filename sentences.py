"""Sentences of token categories as query arguments (see harness/src/parse.rs, `tokens`)."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
_src = open(os.path.join(HERE, "harness/src/dict.rs")).read()
NAMES = re.findall(r"S::(\w+)", _src[_src.index("ALL:"):])
INDEX = {n: k for k, n in enumerate(NAMES)}


def pack(words, mode=0):
    """`?` is any category; mode 1: any one token replaced by any category, 2: any category inserted anywhere"""
    words = words.split()
    assert len(words) <= 31, words
    b = bytes(255 if w == "?" else INDEX[w] + 1 for w in words).ljust(31, b"\0") + bytes([mode])
    return [int.from_bytes(b[k * 8:k * 8 + 8], "little") for k in range(4)]


def lines(name):
    return [x.split("\t")[0].strip() for x in open(os.path.join(HERE, name)) if x.strip()]


TEMPLATES = lines("templates.txt")
COVERS = lines("covers.txt")
CORPUS = [x for x in lines("corpus.txt") if len(x.split()) <= 30]
