import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
L="intl_pluralrules/src/lib.rs"; O="intl_pluralrules/src/operands.rs"; R="intl_pluralrules/src/rules.rs"
PL="cldr_pluralrules_parser/src/lib.rs"; PP="cldr_pluralrules_parser/src/parser.rs"; PA="cldr_pluralrules_parser/src/ast.rs"
ML="make_pluralrules/src/lib.rs"; MP="make_pluralrules/src/parser/gen_pr.rs"; MR="make_pluralrules/src/parser/gen_rs.rs"; MM="make_pluralrules/src/main.rs"
for id,k,n,K in (("C01","cardinal",212,"CARDINAL"),("C02","ordinal",97,"ORDINAL")):
    p(id,f"{k.capitalize()} selection follows the CLDR 37 {k} rules for every locale",
      f"For every locale that the library ships {k} rules for, and every number given by its digits (integer and fraction digits each fitting in 64 bits), selecting {"a" if k=="cardinal" else "an"} {k} category returns exactly the category whose CLDR 37 {k} rule for that locale is true of the number's operands, and OTHER when none is.",
      ["inputs","configurations"],
      f"all {n} shipped {k} locales x all numbers whose integer and fraction digits fit in 64 bits",
      f"Unit tests sample about a dozen (locale, number) pairs in {'en, pl, naq' if k=='cardinal' else 'uk'}; the rules are {n} separate functions with residues modulo up to 1,000,000 and conditions on six operands.",
      [R,L,O,f"intl_pluralrules/cldr_data/cldr_pluralrules_{k}s.json"],
      [(f"PRS_{K}: one generated function per locale",R),("PluralRules::create / select",L),("PluralOperands conversions",O)],
      observe=["PluralRules::create(..).select(..)"])
p("C03","Decimal strings yield exactly the UTS #35 plural operands",
  "For every decimal numeral given as text (optional leading minus, integer digits, optional point followed by fraction digits) whose integer and fraction digits each fit in 64 bits, the operands are exactly those of UTS #35: absolute value, integer part, counts of visible fraction digits with and without trailing zeros, and the fraction digits as integers with and without trailing zeros. Leading zeros, trailing zeros and the sign never change any other operand.",
  ["inputs"],"all decimal numerals of that shape, of any length",
  "Tests sample 13 short strings; none has more than 7 digits on a side, leading integer zeros, or more than 53 significant bits.",
  [O],[("TryFrom<&str> / TryFrom<String> for PluralOperands",O)],observe=["PluralOperands::try_from(&str)","PluralOperands::try_from(String)"])
p("C04","Integers of every primitive type yield exact operands",
  "For every value of every supported primitive integer type the operands are the magnitude of the value, as both absolute value and integer part, with no fraction digits. A value the library declines (only the most negative value of a pointer-sized or 64-bit signed type may be) is reported as an error, never as different operands.",
  ["inputs"],"all values of u8 u16 u32 u64 usize i8 i16 i32 i64 isize","Tests use seven small i32 values; extremes, widths and sign boundaries are never touched.",
  [O],[("impl_integer_type!, impl_signed_integer_type!",O)],observe=["PluralOperands::from / try_from"])
p("C05","A float is treated as the decimal number it prints as",
  "For every finite f32 or f64 of magnitude below 2^64, the operands are those of the decimal numeral the value prints as (its shortest round-trip decimal form, without exponent), so the category selected for the float is the category selected for its printed text. The sign of the float is irrelevant.",
  ["inputs"],"all finite f32 and f64 values below 2^64 in magnitude","Five f64 literals are tested and no f32; rounding, subnormals, huge magnitudes and integral floats are not.",
  [O],[("impl_convert_type!(f32 f64 String)",O)],observe=["PluralOperands::try_from(f32/f64)","PluralRules::select(f32/f64)"])
p("C06","Non-numeric text is refused and accepted text has coherent operands",
  "Converting any string terminates without panicking, and a string that is not a finite number (empty, letters, stray or repeated signs or points, blanks, NaN, infinity) is reported as an error by both operand conversion and selection, as are float NaN and infinities. Whenever a string of magnitude below 2^64 (the range of the integer operand) is accepted, its operands describe that one number: the absolute value is non-negative and equals the integer part plus the visible fraction digits, and the fraction operands agree with each other.",
  ["inputs"],"all strings","One bad string (\"foo\") is tested.",
  [O,L],[("TryFrom<&str> for PluralOperands",O),("PluralRules::select error mapping",L)],observe=["PluralOperands::try_from(&str)","PluralRules::select"])
p("C07","A locale can be created exactly when it is listed, for each rule type",
  "For each rule type, creating rules for a language identifier succeeds exactly when that identifier is in the list of available locales for that type, the list is duplicate-free and is the CLDR 37 locale set without root, and the created object reports the identifier it was created with. Every other identifier (other language, extra script, region or variant) is an error and never another locale's rules.",
  ["inputs","configurations"],"all language identifiers x both rule types","Tests look up en, naq, uk and pl, and a single unknown id; the binary search over a table ordered by raw encodings can lose any of 309 entries unnoticed.",
  [L,R],[("binary search in PluralRules::create",L),("sorted PRS_CARDINAL / PRS_ORDINAL",R),("PluralRules::get_locales",L)],observe=["PluralRules::create","PluralRules::get_locales","PluralRules::get_locale"])
p("C08","Results do not depend on earlier calls or other instances",
  "Creating, cloning, dropping and querying rules objects and converting numbers, in any order and any number of times, including calls that fail, never changes the result of any later call: each call returns what it would return as the first call of a fresh process. A clone behaves as its original.",
  ["histories"],"all finite sequences of public operations","Each test makes a few calls on one object and compares with literals; no test relates a result to a preceding call.",
  [L,O,R],[("no retained state: select applies a plain function to its argument",L)],observe=["PluralRules::{create,select,get_locales,get_locale,clone}","PluralOperands conversions"])
p("C09","Concurrent use from several threads gives the sequential results",
  "When several threads create and use rules objects at the same time, sharing objects or not, every call returns the result it returns when run alone, under every interleaving, and no call blocks another for ever.",
  ["schedules"],"all interleavings of concurrent public calls","No test uses a second thread.",
  [L,O,R],[("no shared mutable state",L)],observe=["PluralRules::{create,select,get_locales}","PluralOperands conversions"])
p("C10","Every well-formed plural rule parses to its own structure",
  "For every condition in UTS #35 plural rule syntax, however it is spaced with blanks or tabs and whichever spelling of an operator it uses, the parser succeeds and returns exactly the written structure: the or-list of and-lists of relations in order, each with its operand, modulus, operator, and list of values and inclusive ranges.",
  ["inputs","programs"],"all well-formed rule conditions and all legal spacings of them","Ten fixed rules are tested with one spacing; most operator, modulus, list and spacing combinations never occur.",
  [PP,PL,PA],[("nom combinators relation, relation_operator, range_list, and_condition, parse_condition",PP)],observe=["parse_plural_rule","parse_plural_condition"])
p("C11","The rule parser never drops, invents or alters what it was given",
  "For every string the rule parser terminates without panicking, and when it succeeds the returned structure accounts for all of the text: writing the structure back out gives the same sequence of tokens as the input, up to spacing and the spelling of operators. Text that continues after a complete rule, unknown operands or operators, and numbers too large to represent are errors.",
  ["inputs","programs"],"all strings, well-formed or not","No test feeds the parser malformed text.",
  [PP,PL],[("full-consumption test in parse_plural_rule",PL),("value: usize parse",PP)],observe=["parse_plural_rule"])
p("C12","Extracting the condition of a rule line agrees with parsing the whole rule",
  "Whenever a whole rule line parses, extracting only its condition gives the same condition, whatever samples follow it. Condition extraction never returns a condition for only part of the text in front of the samples: it returns all of it or an error.",
  ["inputs","programs"],"all rule lines","The condition entry point has no test at all.",
  [PL,PP],[("parse_plural_condition",PL),("parse_condition",PP)],observe=["parse_plural_condition","parse_plural_rule"])
p("C13","Sample lists are returned as written",
  "For every rule line the integer and decimal sample lists, with their single values, ranges, order and trailing ellipsis, are returned as written, including for lines that have samples but no condition. A list that is not present is reported absent.",
  ["inputs","programs"],"all sample lists in UTS #35 syntax","Tests compare only the condition part of any parsed rule, never the samples.",
  [PP,PA],[("samples, sample_list, sample_range, decimal_value",PP)],observe=["parse_plural_rule(..).samples"])
p("C14","Generated code computes the CLDR meaning of the rules it was generated from",
  "For every set of CLDR plural rules, the file the generator writes compiles in the consuming library, and its rules return for every number a category whose condition is true under UTS #35 semantics, and OTHER exactly when no condition is. (Numbers and rule constants are those a double represents exactly; where conditions of one locale overlap, any true one may win.)",
  ["programs","inputs"],"all rule sets x all numbers","The tests compare generated text with a stored fixture and never compile or run it; only the operator/modulus/list shapes in CLDR 33 and one 'within' example occur.",
  [MP,MR,ML],[("create_relation / create_and_condition / create_condition",MP),("gen_mid if-else chain",MR),("category names and rule loop",ML)],observe=["generate_rs output compiled in place of intl_pluralrules/src/rules.rs"])
p("C15","Every source locale is found, with its own rules, in generated tables",
  "For every set of locale identifiers in the source data, in any order and of any subtag lengths, the generated tables let the consuming library find each of them (except root, which is omitted) and bind it to the rules written for it, separately for cardinal and ordinal data, and contain nothing else. The recorded CLDR version is the version of the source data.",
  ["configurations","inputs"],"all sets of language[-script][-region][-variant] keys","The only multi-locale test is a text comparison; lookup in generated tables is never executed, and the generator sorts with one version of the identifier library while the consumer searches with another.",
  [ML,MR],[("sort of locales",ML),("gen_langid raw encodings",MR)],observe=["PluralRules::{create,get_locales} over generated tables","CLDR_VERSION"])
p("C16","The generator accepts exactly the consistent sets of input files",
  "For every sequence of input resources, generation succeeds exactly when every resource is well-formed CLDR plural data with a whole-number CLDR version, all carry the same CLDR version, no rule type is supplied twice (not even with the same or with disjoint contents), and at least one rule type is supplied; otherwise it aborts and returns nothing. On success the output contains exactly the rule types supplied.",
  ["histories","configurations"],"all sequences of input resources","The rejection tests are should_panic without a message, and the version test's data lacks any rules, so it passes through another check; no sequence longer than two is tried.",
  [ML,"make_pluralrules/src/parser/resource.rs"],[("version and duplicate checks in generate_rs",ML)],observe=["generate_rs"])
p("C17","Generator output is a function of the data alone",
  "Generating from the same data always yields the identical text, whatever the order of the input files, the order of keys inside them, irrelevant members, or what was generated earlier in the process.",
  ["histories","inputs"],"all permutations of files and keys, all histories of generator calls","Every test calls the generator once with one order.",
  [ML,MR],[("BTreeMap ordering, sort by locale",ML)],observe=["generate_rs"])
p("C18","The shipped rule tables are what the shipped data and generator produce",
  "Regenerating from the CLDR data shipped with the library yields tables with the same locales, the same CLDR version and the same category for every number as the tables compiled into the library.",
  ["inputs","configurations"],"all shipped locales x both types x all numbers","Nothing in the test suite relates the compiled tables to the data files or to the generator's output for them.",
  [R,"intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json","intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json",ML,MP,MR],
  [("cargo regenerate-data","intl_pluralrules/.cargo/config")],observe=["PluralRules over shipped tables vs over regenerated tables"])
p("C19","A successful tool run writes the generated text; a refused one writes nothing",
  "For every combination of input files, output path and flags, a run of the generator tool that succeeds leaves exactly the generated text (formatted unless unformatted output is asked for) in the output file, replacing whatever was there. A run refused because of its inputs exits with a failure and leaves an existing output file unchanged and creates none. Neither kind of run changes, creates or removes any other file.",
  ["fault_sequences","configurations"],"all combinations of good, missing, malformed and inconsistent inputs, pre-existing outputs, flags, and formatter availability","No test runs the tool.",
  [MM],[("generation precedes File::create; write_all; optional rustfmt",MM)],observe=["exit status and output file of the make_pluralrules binary"])
p("C20","A number selects the same category in every supported representation",
  "For every locale and rule type, a number selects the same category whether it is passed as any integer type that can hold it, as a float that prints as its digits, as borrowed or owned text, or as ready-made operands, and whether it is negated or not.",
  ["inputs","configurations"],"all shipped locales x all numbers x all supported argument types","Tests never pass one number in two representations to the same object.",
  [L,O],[("select<N: TryInto<PluralOperands>>",L),("conversion impls",O)],observe=["PluralRules::select"])
p("C21","Selecting with ready-made operands always answers",
  "For every locale and rule type and every value of the operand fields, including combinations that no numeral has (an absolute value that is negative, infinite or not a number, digits and counts at the 64-bit limits), selection returns a category, the same one every time and one that the CLDR 37 rules of the locale define or OTHER; it never fails, panics or hangs.",
  ["inputs"],"all shipped locales x both types x all operand records","The operand fields are public, but every test builds them from a number; none sets a field to an extreme or inconsistent value.",
  [L,R],[("PluralRules::select, rule functions over PluralOperands",R)],observe=["PluralRules::select(PluralOperands { .. })"])
p("C22","The rule parser accepts only complete rules",
  "A rule or condition that the parser accepts is complete: every 'and' and 'or' joins two relations, every relation has an operand, an operator and at least one value or range, every modulus and every range has its numbers, and every announced sample list has at least one sample. Text that lacks any of these is an error, for the whole-rule and the condition entry point alike, and no accepted structure has an empty part.",
  ["inputs","programs"],"all strings","Tests parse only well-formed rules.",
  [PP,PL],[("separated lists, relation, samples",PP),("parse_plural_rule, parse_plural_condition",PL)],observe=["parse_plural_rule","parse_plural_condition"])
p("C23","Use does not accumulate memory",
  "However many calls a process makes to the library, the rule parser or the generator, in whatever order, with whatever arguments (all different ones and ones that are refused included) and from however many threads, the memory that is still held once the returned values have been dropped stays bounded: it does not grow with the number of calls or with the number of distinct arguments.",
  ["histories"],"all call histories of any length","Every test makes a handful of calls and ends; what the process still holds is never looked at.",
  [L,O,PL,PP,ML,MP,MR],[("no state outside the returned values",L),("&'static str error values",O),("owned AST",PA),("generate_rs returns a String and keeps nothing",ML)],observe=["live heap bytes of the process after any number of public calls"])
p("C24","Results depend on the arguments alone, and calls have no outside effects",
  "A call to the library, the rule parser or the generator library with the same arguments gives the same result in every process, whatever the environment variables, the working directory and the time are, and it reads, writes and prints nothing outside the process (the message of a panic excepted).",
  ["configurations","inputs"],"all environments x all calls","Tests run in one environment and look at returned values only.",
  [L,O,PL,PP,ML,MP,MR],[("pure functions over static tables",L),("conversions",O),("parser",PP),("generate_rs",ML)],observe=["results of the public calls under different environments","system calls made during the public calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
