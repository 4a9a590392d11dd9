#!/usr/bin/env python3
"""Writes yang/alt: modules with the names, revisions and structure of those
in yang/, but with other contents."""
import os
import sys
Y = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 "yang")
SUBST = {
    "sim-t@2024-01-10.yang": [
        ('"1..12"', '"1..4"'), ("bad name length", "alternative length"),
        ("identity wired { base kind; }", "identity wired { base speed; }"),
        ("default 50", "default 51"), ("default 22", "default 23"),
        ("[a-z][a-z0-9", "[a-mo-z][a-z0-9"), ('"0..100"', '"1..99"')],
    "sim-a@2024-02-02.yang": [
        ("default on;", "default auto;"), ("enum off; enum on;",
                                           "enum on; enum off;"),
        ('"-5..5 | 10"', '"-7..2 | 9"'), ("bit read; bit write;",
                                          "bit write; bit read;"),
        ("../mode != 'off'", "../mode = 'off'"), (". != 13", ". != 7"),
        ("thirteen", "seven"), ("max-elements 40", "max-elements 2"),
        ('key "id grp"', 'key "grp id"'), ("fraction-digits 2; range "
         '"-10.00..10.00"', 'fraction-digits 1; range "-1.0..9.9"'),
        ("default plain", "default bare"), ("min-elements 1",
                                            "min-elements 2"),
        ("leaf coat { type string; default", "leaf coat { type int8; default"),
        ('"tin"', "44"), ('"ep/ip ep/port"', '"ep/ip"'),
        ("peer != id", "peer = id"), ("default 3; default 1", "default 4"),
        ("md:annotation weight { type int8; }",
         "md:annotation weight { type string; }")],
    "sim-a-two@2024-02-02.yang": [("default 2", "default 12"),
                                  (". > ../first", ". < ../first"),
                                  ('"sel = 1"', '"sel = 0"')],
    "sim-a-one@2024-02-02.yang": [("default 8", "default 9")],
    "sim-b@2024-03-03.yang": [
        ("base t:wired; base t:speed", "base t:radio"), ("a:id > 100",
         "a:id < 100"), ("mod 2 = 0", "mod 3 = 0"), ("default 6", "default 5")],
    "sim-c@2024-05-05.yang": [
        ("type int8;\n      type boolean;", "type boolean;\n      type uint8;"),
        ("enum two { value 7; }", "enum two;"), ("default left",
                                                "default right"),
        ("default 77", "default on"), ("fraction-digits 3",
                                       "fraction-digits 2"),
        (". != 9", ". != 7"), ("../want > 5", "../want < 5"),
        ("min-elements 2", "min-elements 1")],
    "sim-d@2024-04-04.yang": [(". != 0", ". != 1"), ("30", "3"),
                              ("default 2", "default 3")],
    "ietf-yang-metadata@2016-08-05.yang": [],
}
os.makedirs(os.path.join(Y, "alt"), exist_ok=True)
for f, subs in SUBST.items():
    with open(os.path.join(Y, f), encoding="utf-8") as i:
        t = i.read()
    for a, b in subs:
        if a not in t:
            sys.exit(f"{f}: {a!r} not found")
        t = t.replace(a, b)
    with open(os.path.join(Y, "alt", f), "w", encoding="utf-8") as o:
        o.write(t)
