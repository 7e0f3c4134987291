import json
T={
"C01":"explicit-state model checking: all operation histories up to a depth on the real symbol table, in lockstep with a reference model",
"C02":"bounded exhaustive enumeration of grammars x iteration orders on the real analysis, against a least-fixpoint model",
"C03":"bounded exhaustive enumeration of grammars x iteration orders on the real analysis, against a least-fixpoint model",
"C04":"bounded exhaustive enumeration of grammars x iteration orders on the real table builder, against a model table",
"C05":"bounded exhaustive enumeration of LL(1) grammars x sentences on both real parsers, against a chart-parser model",
"C06":"bounded exhaustive enumeration of LL(1) grammars x token strings on both real parsers, against a chart-parser model",
"C07":"bounded exhaustive enumeration of EBNF descriptions on the real translation, languages compared with a denotational model",
"C08":"bounded exhaustive enumeration of definition histories on the real visitors, against a numbering model",
"C09":"bounded exhaustive enumeration of texts on both real lexers, against a maximal-munch model",
"C10":"bounded exhaustive enumeration of texts on the real lexers, against a position-tracking model",
"C11":"bounded exhaustive enumeration of rule lists x texts on lexers generated and compiled afresh, against a maximal-munch model",
"C12":"bounded exhaustive enumeration of descriptions x layouts x entry points through the real front end, against model trees",
"C13":"bounded exhaustive enumeration of documents and of reader behaviours (chunking, interruption, failure) on the real loader, against an independent JSON model",
"C14":"bounded exhaustive enumeration of trees and queries on the real tree type, against a naive model",
"C15":"bounded exhaustive enumeration of trees and visitor behaviours on the real walkers and visitors, against a model event trace",
"C16":"bounded exhaustive enumeration of texts, trees and write-fault sequences on the real drawer, documents evaluated by a JavaScript engine",
"C17":"bounded exhaustive enumeration of grammars x anonymity on the real printer, read back",
"C18":"bounded exhaustive enumeration of descriptions x hash seeds x histories of earlier work on the real pipeline, results compared",
"C19":"bounded exhaustive enumeration of literals and literal sequences on the real visitor, patterns compared with a denotation model",
"C20":"bounded exhaustive enumeration of child lists on all real accessors, compared by node identity",
"C21":"explicit-state model checking: all request sequences up to a depth x all texts on the real lexers, in lockstep with a cursor model",
"C22":"bounded exhaustive enumeration of trees on the real printer, read back",
"C23":"bounded exhaustive enumeration of descriptions x token strings through the real pipeline, against a direct matcher of the description",
"C24":"bounded exhaustive enumeration of texts, token strings and hash seeds on shipped and regenerated artefacts and the real program, against each other and a model of the notation",
"C26":"explicit-state model checking: all histories of changes, copies and queries up to a depth on real trees and grammars in lockstep with plain models; all ways of cutting descriptions into pieces",
"C25":"bounded exhaustive enumeration of token field values on the real constructors and printers, against the form rebuilt from the fields",
}
NOTE="Decided by executing the real code on every element of the stated bounded space (bounds and counts in the evidence file); the oracle is an independent model in /verif/mc, compared on every execution, so every model trace is replayed on the implementation. Nothing is sampled inside the bounds; nothing is claimed beyond them."
EXTRA={"C02":" For the size-swept larger grammars only a fixed number of iteration orders is provoked.","C16":" Trusts the JavaScript engine and a re-implementation of the HTML script-data states.","C18":" Hash seeds are enumerated up to a bound.","C11":" Trusts rustc and the regex crate.","C24":" Trusts rustc, the regex crate and the JavaScript engine."}
EXTRA["C03"]=EXTRA["C04"]=EXTRA["C02"]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[{"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":v,"level":"model_checking","level_note":NOTE+EXTRA.get(k,"")} for k,v in T.items()],"not_applicable":[],"notes":"No hooks in /repo: hash keys, writes and standard output are interposed at the libc boundary inside the harness process (mc/src/interpose.rs) or by LD_PRELOAD (mc/c/seed.c)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write("\n")
