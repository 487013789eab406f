import json
B=[]
SM="spectator/smile.cc"
def bad(name,old,new,checks="P17",file=SM,**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,checks="P17",file=SM,**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("i-1f","if (i <= 0x1F) {  // tiny","if (i <= 0x20) {  // tiny")
bad("i-13","  if (i <= 0x7F) {  // 13 bits","  if (i <= 0xFF) {  // 13 bits")
bad("i-order","buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b1, b0);","buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b0, b1);")
bad("i-mask","  auto b2 = static_cast<uint8_t>(i & 0x7FU);","  auto b2 = static_cast<uint8_t>(i & 0x3FU);")
bad("i-5","static_cast<uint8_t>(i >> 7U), b3, b2, b1, b0);","static_cast<uint8_t>(i >> 8U), b3, b2, b1, b0);")
bad("i-5tok","buffer_.Append(kByteInt32, static_cast<uint8_t>(i >> 7U), b3","buffer_.Append(static_cast<uint8_t>(i >> 7U), b3")
bad("i-zz","return input << 1U;","return input << 1U | (input > 1000000 ? 1U : 0U);")
bad("d-35","static_cast<uint32_t>(l >> 35U)","static_cast<uint32_t>(l >> 36U)")
bad("d-28","static_cast<uint32_t>(l >> 28U)","static_cast<uint32_t>(l >> 29U)")
bad("d-float","LongDouble ld{value};","LongDouble ld{static_cast<double>(static_cast<float>(value))};")
bad("d-tok","static constexpr uint8_t kTokenFloat64 = 0x1;","static constexpr uint8_t kTokenFloat64 = 0x0;")
bad("s-64","kMaxShortValueStringBytes = 64;","kMaxShortValueStringBytes = 65;")
bad("s-len","auto len = s.length();","auto len = static_cast<uint8_t>(s.length());")
bad("s-noend","    buffer_.Append(s);\n    buffer_.Append(kEndOfString);","    buffer_.Append(s);")
bad("s-empty","  if (s.empty()) {\n    buffer_.Append(kLiteralEmptyString);\n    return;\n  }\n","")
bad("s-tiny","static_cast<uint8_t>(kTinyAscii - 1 + len)","static_cast<uint8_t>(kTinyAscii + len)")
bad("hdr","buffer_.Append(kHeaderByte1, kHeaderByte2, kHeaderByte3, kHeaderByte4);","buffer_.Append(kHeaderByte1, kHeaderByte2, kHeaderByte3);",file="spectator/smile.h")
bad("end","    write_end_array();\n    return buffer_.Result();","    auto r = buffer_.Result();\n    write_end_array();\n    return r;",file="spectator/smile.h")
bad("buf5","    cur_.push_back(b4);\n    cur_.push_back(b5);\n    maybe_compress();\n  }\n\n  auto Append(uint8_t b1, uint8_t b2, uint8_t b3, uint8_t b4, uint8_t b5,\n              uint8_t b6)","    cur_.push_back(b5);\n    cur_.push_back(b4);\n    maybe_compress();\n  }\n\n  auto Append(uint8_t b1, uint8_t b2, uint8_t b3, uint8_t b4, uint8_t b5,\n              uint8_t b6)",file="spectator/compressed_buffer.h")
quiet("bufins","    cur_.push_back(b1);\n    cur_.push_back(b2);\n    maybe_compress();","    const uint8_t bs[] = {b1, b2};\n    for (auto b : bs) {\n      cur_.push_back(b);\n    }\n    maybe_compress();",file="spectator/compressed_buffer.h")
quiet("bufstr","std::copy(s.begin(), s.end(), std::back_inserter(cur_));","cur_.insert(cur_.end(), s.begin(), s.end());",file="spectator/compressed_buffer.h")
quiet("dmemcpy","  LongDouble ld{value};\n  auto l = ld.l;","  uint64_t l;\n  __builtin_memcpy(&l, &value, sizeof l);")
quiet("ihelper","auto b0 = static_cast<uint8_t>(0x80 + (i & 0x3FU));\n  i >>= 6U;","auto b0 = static_cast<uint8_t>(0x80 | (i % 64));\n  i /= 64;")
quiet("iswitch","  auto i = zigzagEncode(n);","  const auto zz = 2 * n;\n  size_t i = zz;")
quiet("iloop","  auto b0 = static_cast<uint8_t>(0x80 + (i & 0x3FU));\n  i >>= 6U;\n  if (i <= 0x7F) {  // 13 bits","  if (true) {\n    uint8_t rev[6];\n    int cnt = 0;\n    rev[cnt++] = static_cast<uint8_t>(0x80 | (i & 0x3FU));\n    i >>= 6U;\n    do {\n      rev[cnt++] = static_cast<uint8_t>(i & 0x7FU);\n      i >>= 7U;\n    } while (i != 0);\n    buffer_.Append(kByteInt32);\n    while (cnt > 0) {\n      buffer_.Append(rev[--cnt]);\n    }\n    return;\n  }\n  auto b0 = static_cast<uint8_t>(0x80 + (i & 0x3FU));\n  i >>= 6U;\n  if (i <= 0x7F) {  // 13 bits")
quiet("sif","  if (len <= kMaxShortValueStringBytes) {","  if (!(len > 64)) {")
quiet("hdr2","    buffer_.Append(kHeaderByte1, kHeaderByte2, kHeaderByte3, kHeaderByte4);","    buffer_.Append(std::string_view{\":)\\n\"});\n    buffer_.Append(kHeaderByte4);",file="spectator/smile.h")
quiet("dloop","  buffer_.Append(b0, b1, b2, b3, b4);\n","  for (uint8_t b : {b0, b1, b2, b3, b4}) {\n    buffer_.Append(b);\n  }\n")
json.dump(B,open("/tmp/p17.json","w"),indent=1)
