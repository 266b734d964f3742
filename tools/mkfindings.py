#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; no check runs it)."""
import json,os
D={1:"RANGE_DROPS_MOD",2:"NMOD_IGNORES_FRACTION",4:"NE_RANGE_FALSE_ON_FRACTION",8:"NOT_WITHIN_EMPTY",16:"WITHIN_FIRST_RANGE",32:"WITHIN_MOD_USES_I"}
T={1:"'n % m = a..b' is evaluated as 'i in a..b' (modulus dropped)",2:"'n % m ...' is evaluated on the integer part (fraction ignored)",
4:"'n != a..b' is false for every number with a fraction",8:"'x not within a..b' is generated as a > x && x > b, which never holds",
16:"'within' uses only the first range of its list and ignores single values",32:"'x % m within ...' is generated on i whatever the operand x"}
names=lambda m:[D[b] for b in D if m&b]
text=lambda m:"; ".join(T[b] for b in T if m&b)
op=[]
for p,kind,L in (("C01","cardinal",{"ar":3,"ars":3,"be":3,"br":3,"kw":3,"lt":3,"lv":3,"mo":1,"mt":3,"prg":3,"ro":1}),
          ("C02","ordinal",{"be":2,"en":2,"kk":2,"kw":3,"sq":2,"sv":2,"tk":2,"uk":2})):
    for l,m in L.items(): op.append(dict(property=p,subject=l,deviations=names(m),what=text(m)))
for p in ("C01","C02"): op.append(dict(property=p,subject="*",deviations=["N_ROUNDED"],what="the absolute value is a double: a fraction below its precision is lost and n is compared with the rounded value"))
for b in (1,2,4,8): op.append(dict(property="C14",subject=D[b],deviations=[D[b]],what="generated code: "+T[b]))
op.append(dict(property="C15",subject="LOCALE_UND",deviations=[],what="a source locale 'und' is written as langid!(None, None, None), which does not compile"))
op.append(dict(property="C15",subject="LOCALE_VARIANT",deviations=[],what="variant subtags of a source locale are dropped: the entry is bound to the identifier without variants"))
op.append(dict(property="C13",subject="DECIMAL_SAMPLE_ZEROS",deviations=[],what="the fraction digits of a decimal sample are returned as a number: leading zeros and the count of trailing zeros are lost (0.05 and 0.5, 1.0 and 1.00 are the same)"))
for k,w in (("MALFORMED_RULE_TAIL","text after the longest well-formed prefix of a rule ('n = 1 or', 'n = 1 foo') is ignored (the generator depends on the published parser 2.0.0, not on the repaired one in this repository)"),
 ("UNKNOWN_CATEGORY","a rule for an unknown category ('pluralRule-count-foo') is dropped silently"),
 ("EMPTY_CONDITION","an empty condition for a category other than OTHER is accepted and written as 'if { .. }', which does not compile"),
 ("NEGATIVE_VERSION","a negative version is accepted and recorded as a huge number")):
    op.append(dict(property="C16",subject=k,deviations=[],what=w))
fx=["fixed: property=C03 179d472 digits of integer strings above 2^53 were lost (\"9007199254740993\" gave i = 9007199254740992)",
"fixed: property=C06 a84e59a \"--5\", \"NaN\", \"inf\", \"15e-1\" and NaN or infinite floats were accepted with made-up operands",
"fixed: property=C13 2d081ba samples of a rule line without a condition were dropped",
"fixed: property=C10 7cf78fd conditions without blanks around symbols (n%10=1), or with blanks around '..', ',' or at the ends, were refused or truncated",
"fixed: property=C12 3a16aac parse_plural_condition silently returned the condition in front of text it could not parse",
"fixed: property=C14 819bb39 'x % m within ..' was generated on i whatever the operand x",
"fixed: property=C14 1e32461 'within' used only the first range of its list; a list of values made the generator abort",
"fixed: property=C19 3aa2551 a failing rustfmt was ignored: exit 0 with unformatted output",
"fixed: property=C22 030b296 'n =' and other relations without any value were accepted"]
json.dump(dict(open=op,fixed=fx),open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.json"),"w"),indent=1)
