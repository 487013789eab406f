import json
B=[]
S="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P16",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P16",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
OLD="""    auto stat = tags.at(refs().statistic());
    if (stat == refs().count() || stat == refs().totalAmount() ||
        stat == refs().totalTime() || stat == refs().totalOfSquares() ||
        stat == refs().percentile()) {
      return Op::Add;
    }
    return Op::Max;
"""
assert OLD in open('/repo/'+S).read()
bad("noperc"," ||\n        stat == refs().percentile()) {",") {")
bad("gauge","stat == refs().totalAmount() ||","stat == refs().totalAmount() || stat == refs().gauge() ||")
bad("swap","      return Op::Add;\n    }\n    return Op::Max;","      return Op::Max;\n    }\n    return Op::Add;")
bad("max10","Max = 10","Max = 1")
bad("refs","totalSq_(intern_str(\"totalOfSquares\"))","totalSq_(intern_str(\"totalSquares\"))","spectator/common_refs.h")
bad("refs2","return totalAmount_; }","return totalTime_; }","spectator/common_refs.h")
bad("key","tags.at(refs().statistic())","tags.at(refs().name())")
bad("stattag","    auto stat = tags.at(refs().statistic());","    auto stat = tags.at(refs().statistic());\n    if (stat == StrRef{}) return Op::Add;")
bad("value","auto op = op_from_tags(m.id.GetTags());","auto op = m.value < 0 ? Op::Max : op_from_tags(m.id.GetTags());",expect="bad")
bad("common","auto op = op_from_tags(m.id.GetTags());","auto op = op_from_tags(common_tags_);")
bad("one","auto op_num = static_cast<int>(op);","auto op_num = static_cast<int>(op) ? 1 : 0;")
quiet("early",OLD,"""    const auto stat = tags.at(refs().statistic());
    const bool is_sum = stat == refs().count() || stat == refs().percentile() || stat == refs().totalOfSquares() ||
                        stat == refs().totalTime() || stat == refs().totalAmount();
    return is_sum ? Op::Add : Op::Max;
""")
quiet("loop",OLD,"""    auto stat = tags.at(refs().statistic());
    for (auto sum : {refs().count(), refs().totalAmount(), refs().totalTime(), refs().totalOfSquares(), refs().percentile()}) {
      if (stat == sum) return Op::Add;
    }
    return Op::Max;
""")
quiet("inline","auto op = op_from_tags(m.id.GetTags());","const Tags& own = m.id.GetTags();\n    Op op = op_from_tags(own);")
quiet("neg",OLD,"""    auto stat = tags.at(refs().statistic());
    if (stat != refs().count() && stat != refs().totalAmount() && stat != refs().totalTime() &&
        stat != refs().totalOfSquares() && stat != refs().percentile()) {
      return Op::Max;
    }
    return Op::Add;
""")
quiet("gaugefirst",OLD,OLD.replace("    if (","    if (stat == refs().gauge() || stat == refs().max()) return Op::Max;\n    if (",1))
quiet("num","    auto op_num = static_cast<int>(op);\n    payload->Append(op_num);","    payload->Append(op == Op::Add ? 0 : 10);")
json.dump(B,open('/tmp/p16.json','w'),indent=1)
