import json
B=[]
PB="spectator/percentile_buckets.cc"
def bad(name,old,new,checks="P27",file=PB,**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,checks="P27",file=PB,**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
quiet("idx-eq","if (v <= 4) {","if (v <= 3) {")
quiet("idx-neg","if (v <= 0) {","if (v < 0) {")
bad("idx-clz","size_t shift = 64 - lz - 1;","size_t shift = 64 - lz;")
bad("idx-noalign","    prevPowerOf4 >>= 1;\n","")
bad("idx-delta","auto delta = base / 3;","auto delta = base / 4;")
bad("idx-cap","return pos >= kBucketValues.size() - 1 ? kBucketValues.size() - 1 : pos + 1;","return pos + 1;")
quiet("idx-cap2","pos >= kBucketValues.size() - 1 ?","pos >= kBucketValues.size() - 2 ?")
bad("idx-int","auto offset = static_cast<size_t>((v - base) / delta);","auto offset = static_cast<size_t>(static_cast<int>(v - base) / delta);")
bad("gen-cur","auto next = (current << kDigits) - delta;","auto next = (current << kDigits);",file="tools/gen_perc_bucket_values.cc")
bad("gen-max","  bucketValues.push_back(std::numeric_limits<int64_t>::max());\n","  bucketValues.push_back(std::numeric_limits<int32_t>::max());\n",file="tools/gen_perc_bucket_values.cc")
bad("gen-tag","output_array(of, 276, 'D', \"kDistTags\");","output_array(of, 276, 'T', \"kDistTags\");",file="tools/gen_perc_bucket_tags.cc")
bad("gen-hex","\\\"%c%04zX\\\"","\\\"%c%04zx\\\"",file="tools/gen_perc_bucket_tags.cc")
bad("clamp-swap","    r = max;\n","    r = min;\n",file="spectator/util.h")
bad("clamp-lo","  } else if (r < min) {\n    r = min;\n  }","  }",file="spectator/util.h")
bad("pt-tags","get_counter(index, kTimerTags.begin())","get_counter(index, kDistTags.begin())",file="spectator/percentile_timer.h")
bad("pt-plain","timer_->Record(amount);\n    auto restricted = restrict(amount, min_, max_);","auto restricted = restrict(amount, min_, max_);\n    timer_->Record(restricted);",file="spectator/percentile_timer.h")
bad("pt-unit","absl::ToInt64Nanoseconds(restricted)","absl::ToInt64Microseconds(restricted)",file="spectator/percentile_timer.h")
bad("pt-unclamped","absl::ToInt64Nanoseconds(restricted)","absl::ToInt64Nanoseconds(amount)",file="spectator/percentile_timer.h")
bad("pt-off","intern_str(perc_tags[index])","intern_str(perc_tags[index + 1])",file="spectator/percentile_timer.h")
bad("pt-stat","refs().statistic(), refs().percentile(), refs().percentile(),","refs().statistic(), refs().count(), refs().percentile(),",file="spectator/percentile_timer.h")
bad("pd-twice","c->Increment();","c->Increment();\n    c->Increment();",file="spectator/percentile_distribution_summary.h")
bad("pd-neg","    if (amount < 0) {\n      return;\n    }\n","    if (amount <= 0) {\n      return;\n    }\n",file="spectator/percentile_distribution_summary.h")
quiet("idx-ge","if (v <= 4) {\n    return static_cast<size_t>(v);\n  }","if (v < 5) {\n    return static_cast<size_t>(v);\n  }")
quiet("idx-helper","auto PercentileBucketIndexOf(int64_t v) -> size_t {","static auto floor4(int64_t v, size_t* shift) -> int64_t {\n  *shift = 63 - __builtin_clzll(v);\n  if (*shift % 2 != 0) --*shift;\n  return int64_t{1} << *shift;\n}\n\nauto PercentileBucketIndexOf(int64_t v) -> size_t {",edits=[[PB,"auto PercentileBucketIndexOf(int64_t v) -> size_t {","static auto floor4(int64_t v, size_t* shift) -> int64_t {\n  *shift = 63 - __builtin_clzll(v);\n  if (*shift % 2 != 0) --*shift;\n  return int64_t{1} << *shift;\n}\n\nauto PercentileBucketIndexOf(int64_t v) -> size_t {"],[PB,"  size_t lz = __builtin_clzll(v);\n  size_t shift = 64 - lz - 1;\n  int64_t prevPowerOf2 = (v >> shift) << shift;\n  int64_t prevPowerOf4 = prevPowerOf2;\n  if (shift % 2 != 0) {\n    --shift;\n    prevPowerOf4 >>= 1;\n  }\n\n  auto base = prevPowerOf4;","  size_t shift = 0;\n  auto base = floor4(v, &shift);"]])
quiet("idx-min","return pos >= kBucketValues.size() - 1 ? kBucketValues.size() - 1 : pos + 1;","auto last = kBucketValues.size() - 1;\n  if (pos >= last) {\n    return last;\n  }\n  return pos + 1;")
quiet("clamp-clamp","  auto r = amount;\n  if (r > max) {\n    r = max;\n  } else if (r < min) {\n    r = min;\n  }\n  return r;","  if (amount > max) return max;\n  return amount < min ? min : amount;",file="spectator/util.h")
quiet("pt-order","timer_->Record(amount);\n    auto restricted = restrict(amount, min_, max_);\n    auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));\n    auto c = get_counter(index, kTimerTags.begin());\n    c->Increment();","const auto nanos = absl::ToInt64Nanoseconds(restrict(amount, min_, max_));\n    get_counter(PercentileBucketIndexOf(nanos), &kTimerTags[0])->Increment();\n    timer_->Record(amount);",file="spectator/percentile_timer.h")
quiet("idx-loop","  size_t lz = __builtin_clzll(v);\n  size_t shift = 64 - lz - 1;","  size_t shift = 0;\n  while (shift < 62 && (v >> (shift + 1)) != 0) {\n    ++shift;\n  }")
json.dump(B,open("/tmp/p27.json","w"),indent=1)
