#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl: repaired defects ("fixed:" lines, which suppress nothing) and, as JSON
objects with property/case/what, genuine defects that were recorded instead of repaired."""
import os
FIXED = [
 ("C21","2814bef","strings.HasPrefix tested the suffix"),
 ("C10","6953836","assigning bool or float32 through an indirect operand copied the destination onto itself"),
 ("C04","97e8589","comparing integers for equality printed the operands to stdout"),
 ("C01","f1ebbb9","text before a ## comment on the same line was dropped"),
 ("C01","0e69308","#[[..]]# with quotes or unpaired brackets inside was not recognised"),
 ("C05","d46b087","operators ignored precedence and left associativity"),
 ("C03","a86b124","expressions over unknown variables panicked or rendered garbage"),
 ("C22","ed9e7a3","AppendByte on a full buffer panicked"),
 ("C04","afd3362","operands of different numeric types and pointers were computed on raw bits"),
 ("C08","eeb8121","+= -= *= /= in a for loop were parsed as increments"),
 ("C10","e25cc80","text around a reference in a quoted string was dropped"),
 ("C08","0adb038","the operator of a compound assignment was lost while its operand was parsed"),
 ("C11","6a1283f","paths through recursive, repeated, embedded and indexed types looped, failed or read the wrong field"),
 ("C13","6a1283f","declaring mutually recursive types did not terminate; names were resolved to another field"),
 ("C13","b8fd281","setting a small integer or a pointer shaped struct corrupted state memory"),
 ("C12","51cf207","indexing maps and interfaces read invalid memory; indexing anything else was accepted"),
 ("C14","5554e06","assigning through a nil pointer modified shared zero values, visible to every other state"),
 ("C15","cff38e2","concurrent compilations raced on shared functions and constants"),
 ("C20","cff38e2","types sharing a name shared methods"),
 ("C18","0a96962","an evaluated template used code cached for another scope"),
 ("C19","0a96962","errors raised in evaluated templates were lost, panic-on-error did not reach them"),
 ("C17","0a96962","#evaluate of a non-string read invalid memory"),
 ("C16","0810341","states put back to the pool were never reused and kept their errors and variables"),
 ("C21","8fdd010","errors namespace formatted messages and asserted only bool values"),
 ("C21","d82d837","maps namespace panicked or missed keys of types other than the map key"),
 ("C20","a9831dd","single character and quoted-quote arguments were lost"),
 ("C20","132fbcb","functions returning interface{} rendered invalid memory"),
 ("C20","d039a8f","calls with mismatched arguments panicked or read invalid memory"),
 ("C07","90812d2","loop items of pointer, interface or changed type read invalid memory"),
 ("C06","90812d2","nil pointer conditions read invalid memory"),
 ("C25","8ceca68","non-empty interfaces rendered invalid memory"),
 ("C10","ccd6685","assigning a value of another type skipped its conversion"),
 ("C03","80973f6","a reference to an unknown variable was HTML escaped instead of rendered as written"),
 ("C06","16d2651","string and number expressions used as conditions were read as bool"),
 ("C01","3b5478a","references in braces after a $ or # that begins no construct were not rendered"),
 ("C03","c737c4b","a silent braced unknown reference lost its !"),
 ("C03","62f0c62","a variable whose name contained ___ resolved as a field of another variable"),
 ("C07","ff59fde","a comma inside a loop source was taken for an index variable"),
 ("C06","4098ff6","empty slices were true conditions"),
 ("C12","18f9363","paths and calls continuing after an element that is a pointer read invalid memory"),
 ("C20","097aa55","the result of a function returning a small integer overwrote adjacent state memory"),
 ("C01","508f9b5","a full stop after a reference kept it from being rendered"),
 ("C12","31c61d5","slice indexes of other integer types than int read adjacent memory"),
 ("C07","9a610f0","foreach read past the end of a slice assigned within the loop"),
 ("C13","bdd7976","setting a value of another type corrupted state memory or panicked"),
 ("C13","4ead553","embedding types with methods, repeated and unexported types panicked"),
 ("C13","8a5886b","prefixed names of embedded fields were rejected behind a variable"),
 ("C17","ca70389","evaluated templates saw variables declared after the directive"),
 ("C17","fb71e04","whitespace after a reference in a quoted string was dropped"),
 ("C19","d490fbc","a result returned together with an error was rendered"),
 ("C20","8fe3422","registering func(string) string and calling it with an interface{} variable, $up($any), read the interface words as the string: out of range read, crash of the process"),
 ("C20","ba9ac02","func() string registered and called, $get(), or a variadic function called without arguments: compiled, then failed with an error without calling the function"),
 ("C20","b6a4289","$m[\"k\"].S(\"x\") where m is a map of a non empty interface type: nil pointer dereference"),
 ('C20','da14284','$mkm("q").pass() where both take or return map[string]int: the map is corrupted, crash; $mkone().f() where the result is a struct of one pointer: the function got a wrong pointer'),
 ('C20','9024294','standalone function with a ResultTyper declaring []string: calling it overwrote the variable introduced after the call ($q in #foreach($x in $is)$sfa("a")#if($t)#set($q=77)#end$q#set($t=false)#end); declaring a map type: nil pointer dereference'),
 ('C21','1bc7b40','$json.UnmarshalInto("1","int") compiled by a planner without a TypeParser: nil pointer dereference'),
 ('C25','ddb22b1','a reference to an interface holding a nil *time.Time panicked'),
 ('C04','0d1a05a','a uint beyond int64 compared to a *uint as a negative number'),
 ('C20','86036a1','an argument passed to a function as an interface value shared memory with the state: a function that kept it saw it change with later assignments, loop iterations and when the state was put back into a pool'),
 ('C12','c4a815b','a slice indexed by a variable that is a pointer to int read the address as the index'),
 ('C21','27b59e9','IndexBy panicked when the indexed field of an element is a nil pointer or interface'),
 ('C12','81e1b95','map keys given by pointers to floats were truncated to integers, by pointers to small or unsigned integers and bools not found'),
]
KNOWN = [
 ("C04", "unsigned values beyond int64 with integers of another type: mathematical result", "a uint or uint64 of 1<<63 or more compared with an integer of another type is taken as the negative int of the same bits (xunsafe normalises every integer type to int)"),
]
import json
with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.jsonl"), "w") as f:
    for p, c, w in FIXED: f.write("fixed: property=%s %s %s\n" % (p, c, w))
    for p, c, w in KNOWN: f.write(json.dumps({"property": p, "case": c, "what": w, "kind": "known"}) + "\n")
