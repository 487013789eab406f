import json
B=[]
SP="spectator/compressed_buffer.cc"; H="spectator/compressed_buffer.h"; G="spectator/gzip.cc"
def bad(name,old,new,file=SP,checks="P31",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=SP,checks="P31",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("swap3","    cur_.push_back(b1);\n    cur_.push_back(b2);\n    cur_.push_back(b3);\n    maybe_compress();","    cur_.push_back(b1);\n    cur_.push_back(b3);\n    cur_.push_back(b2);\n    maybe_compress();",H)
bad("drop5","    cur_.push_back(b4);\n    cur_.push_back(b5);\n    maybe_compress();","    cur_.push_back(b4);\n    maybe_compress();",H)
bad("dropbig","    std::copy(s.begin(), s.end(), std::back_inserter(cur_));","    if (s.size() < 0x10000) std::copy(s.begin(), s.end(), std::back_inserter(cur_));",H)
bad("availall","stream.avail_out = static_cast<uInt>(avail_out);","stream.avail_out = static_cast<uInt>(dest_.size());")
bad("noresize","    dest_.resize(dest_.size() + chunk_size);\n    avail_out += chunk_size;","    avail_out += chunk_size;")
bad("halfresize","    dest_.resize(dest_.size() + chunk_size);","    dest_.resize(dest_.size() + chunk_size / 2);")
bad("resizeto","    dest_.resize(dest_.size() + chunk_size);","    dest_.resize(dest_index_ + chunk_size);")
bad("nogrow","  if (avail_out < chunk_size / 2) {","  if (dest_.size() < chunk_size / 2) {")
bad("startat0","stream.next_out = reinterpret_cast<Bytef*>(dest_.data() + dest_index_);","stream.next_out = reinterpret_cast<Bytef*>(dest_.data());")
bad("noindex","  dest_index_ = stream.total_out;\n","  if (err == Z_OK) dest_index_ = stream.total_out;\n")
bad("addindex","  dest_index_ = stream.total_out;\n","  dest_index_ += stream.total_out;\n")
bad("clearfirst","    compress(Z_NO_FLUSH);\n    cur_.clear();","    cur_.clear();\n    compress(Z_NO_FLUSH);")
bad("onechunk","  while (stream.avail_in > 0 && err == Z_OK) {","  if (stream.avail_in > 0 && err == Z_OK) {",edits=None) if False else bad("onechunk","  while (stream.avail_in > 0 && err == Z_OK) {\n    err = deflate_chunk(chunk_size_output_, flush);\n  }\n  assert(stream.avail_in == 0);","  if (stream.avail_in > 0 && err == Z_OK) {\n    err = deflate_chunk(chunk_size_output_, flush);\n  }")
bad("nofinish","  while (flush == Z_FINISH && err == Z_OK) {\n    err = deflate_chunk(chunk_size_output_, flush);\n  }\n","")
bad("finishonce","  while (flush == Z_FINISH && err == Z_OK) {","  if (flush == Z_FINISH && err == Z_OK) {")
bad("finishsync","    compress(Z_FINISH);","    compress(Z_SYNC_FLUSH);")
bad("finishcond","  while (flush == Z_FINISH && err == Z_OK) {","  while (flush == Z_FINISH && err == Z_OK && stream.avail_out == 0) {")
bad("noend","    compress(Z_FINISH);\n    deflateEnd(&stream);","    compress(Z_FINISH);\n    if (stream.total_out > 0 && stream.avail_out == 0) return CompressedResult{dest_.data(), stream.total_out};\n    deflateEnd(&stream);")
bad("endfirst","    compress(Z_FINISH);\n    deflateEnd(&stream);","    deflateEnd(&stream);\n    compress(Z_FINISH);")
bad("keepflag","    init_ = false;\n    compress(Z_FINISH);","    compress(Z_FINISH);")
bad("noreset","  dest_index_ = 0;\n","")
bad("initflag","  cur_.clear();\n  dest_index_ = 0;","  init_ = true;\n  cur_.clear();\n  dest_index_ = 0;")
bad("initleak","    init_ = false;\n    deflateEnd(&stream);\n  }\n  cur_.clear();","    init_ = false;\n  }\n  cur_.clear();")
bad("partin","  stream.avail_in = cur_.size();","  stream.avail_in = std::min(cur_.size(), chunk_size_input_);")
bad("reswindow","  return CompressedResult{dest_.data(), stream.total_out};","  return CompressedResult{dest_.data(), dest_.size()};")
bad("dtor","  (void)Result();","  cur_.clear();")
bad("wbits","deflateInit2(&stream, Z_BEST_SPEED, Z_DEFLATED, kWindowBits,","deflateInit2(&stream, Z_BEST_SPEED, Z_DEFLATED, MAX_WBITS,")
bad("g-noend","  if (err != Z_STREAM_END) {\n    deflateEnd(&stream);","  if (err != Z_STREAM_END) {",G)
bad("g-okret","    return err == Z_OK ? Z_BUF_ERROR : err;","    return err;",G)
bad("g-nolen","  *destLen = stream.total_out;\n\n  return deflateEnd(&stream);","  return deflateEnd(&stream);",G)
bad("g-err","  if (err != Z_OK) {\n    return err;\n  }\n\n  err = deflate(","  if (err == Z_MEM_ERROR) {\n    return err;\n  }\n\n  err = deflate(",G)
bad("g-avail","  stream.avail_out = static_cast<uInt>(*destLen);\n  stream.zalloc","  stream.avail_out = static_cast<uInt>(sourceLen);\n  stream.zalloc",G)
bad("g-inend","    if (init == Z_OK) {\n      inflateEnd(stream_);\n    }","    inflateEnd(stream_);",G)
bad("g-inbad","    if (err == Z_NEED_DICT || (err == Z_BUF_ERROR && stream.avail_in == 0)) {\n      return Z_DATA_ERROR;\n    }\n    return err;","    if (err == Z_NEED_DICT) {\n      return Z_DATA_ERROR;\n    }\n    return err == Z_BUF_ERROR ? Z_OK : err;",G)
bad("g-insync","  err = inflate(&stream, Z_FINISH);","  err = inflate(&stream, Z_SYNC_FLUSH);",G)
quiet("insert","    std::copy(s.begin(), s.end(), std::back_inserter(cur_));","    cur_.insert(cur_.end(), s.begin(), s.end());",H)
quiet("forpush","    std::copy(s.begin(), s.end(), std::back_inserter(cur_));","    for (auto ch : s) { cur_.push_back(static_cast<uint8_t>(ch)); }",H)
quiet("init-ilist","    cur_.push_back(b1);\n    cur_.push_back(b2);\n    maybe_compress();","    cur_.insert(cur_.end(), {b1, b2});\n    maybe_compress();",H)
quiet("dow","  while (flush == Z_FINISH && err == Z_OK) {\n    err = deflate_chunk(chunk_size_output_, flush);\n  }\n","  if (flush == Z_FINISH && err == Z_OK) {\n    do {\n      err = deflate_chunk(chunk_size_output_, flush);\n    } while (err == Z_OK);\n  }\n")
quiet("foring","  while (stream.avail_in > 0 && err == Z_OK) {","  for (; err == Z_OK && stream.avail_in != 0;) {")
quiet("growhelper","auto CompressedBuffer::deflate_chunk(","static auto grow(std::vector<uint8_t>& v, size_t by) -> size_t { v.resize(v.size() + by); return v.size(); }\nauto CompressedBuffer::deflate_chunk(",edits=[[SP,"auto CompressedBuffer::deflate_chunk(","static auto grow(std::vector<uint8_t>& v, size_t by) -> size_t { v.resize(v.size() + by); return v.size(); }\nauto CompressedBuffer::deflate_chunk("],[SP,"    dest_.resize(dest_.size() + chunk_size);\n    avail_out += chunk_size;","    avail_out = grow(dest_, chunk_size) - dest_index_;"]])
quiet("ifgrow","  if (avail_out < chunk_size / 2) {","  if (avail_out * 2 < chunk_size) {")
quiet("growalways","  if (avail_out < chunk_size / 2) {","  if (avail_out < chunk_size) {")
quiet("result-order","    init_ = false;\n    compress(Z_FINISH);\n    deflateEnd(&stream);","    compress(Z_FINISH);\n    deflateEnd(&stream);\n    init_ = false;")
quiet("early","  if (init_) {\n    init_ = false;\n    compress(Z_FINISH);\n    deflateEnd(&stream);\n  }\n  return","  const auto res = [this] { return CompressedResult{dest_.data(), stream.total_out}; };\n  if (!init_) {\n    return res();\n  }\n  init_ = false;\n  compress(Z_FINISH);\n  deflateEnd(&stream);\n  return")
quiet("maybe","  if (cur_.size() > chunk_size_input_) {\n    compress(Z_NO_FLUSH);\n    cur_.clear();\n  }","  if (cur_.size() <= chunk_size_input_) {\n    return;\n  }\n  compress(Z_NO_FLUSH);\n  cur_.clear();")
quiet("dtor","  (void)Result();","  if (init_) {\n    deflateEnd(&stream);\n    init_ = false;\n  }")
quiet("g-switch","    if (err == Z_NEED_DICT || (err == Z_BUF_ERROR && stream.avail_in == 0)) {\n      return Z_DATA_ERROR;\n    }\n    return err;","    const bool truncated = err == Z_BUF_ERROR && stream.avail_in == 0;\n    return err == Z_NEED_DICT || truncated ? Z_DATA_ERROR : err;",G)
quiet("g-noguard","  inflate_guard guard(&stream);\n  auto err = guard.init_result();\n  if (err != Z_OK) {\n    return err;\n  }\n\n  err = inflate(&stream, Z_FINISH);\n","  auto err = inflateInit2(&stream, kWindowBits);\n  if (err != Z_OK) {\n    return err;\n  }\n\n  err = inflate(&stream, Z_FINISH);\n  inflateEnd(&stream);\n",G)
quiet("g-setup","  stream.next_in = reinterpret_cast<z_const Bytef*>(const_cast<void*>(source));\n  stream.avail_in = static_cast<uInt>(sourceLen);\n  stream.next_out = reinterpret_cast<Bytef*>(dest);\n  stream.avail_out = static_cast<uInt>(*destLen);\n  stream.zalloc = static_cast<alloc_func>(nullptr);\n  stream.zfree = static_cast<free_func>(nullptr);\n  stream.opaque","  prepare(&stream, dest, *destLen, source, sourceLen);\n  stream.zalloc = static_cast<alloc_func>(nullptr);\n  stream.zfree = static_cast<free_func>(nullptr);\n  stream.opaque",G,edits=[[G,"auto gzip_compress(void* dest","static void prepare(z_stream* s, void* d, size_t dn, const void* i, size_t n) {\n  s->next_in = reinterpret_cast<z_const Bytef*>(const_cast<void*>(i));\n  s->avail_in = static_cast<uInt>(n);\n  s->next_out = reinterpret_cast<Bytef*>(d);\n  s->avail_out = static_cast<uInt>(dn);\n}\nauto gzip_compress(void* dest"],[G,"  stream.next_in = reinterpret_cast<z_const Bytef*>(const_cast<void*>(source));\n  stream.avail_in = static_cast<uInt>(sourceLen);\n  stream.next_out = reinterpret_cast<Bytef*>(dest);\n  stream.avail_out = static_cast<uInt>(*destLen);\n  stream.zalloc = static_cast<alloc_func>(nullptr);\n  stream.zfree = static_cast<free_func>(nullptr);\n  stream.opaque","  prepare(&stream, dest, *destLen, source, sourceLen);\n  stream.zalloc = static_cast<alloc_func>(nullptr);\n  stream.zfree = static_cast<free_func>(nullptr);\n  stream.opaque"]])
bad("dirty-init","  cur_.clear();\n  dest_index_ = 0;","  dest_index_ = 0;")
quiet("clear-late","  cur_.clear();\n  dest_index_ = 0;","  dest_index_ = 0;",edits=[["  init_ = true;\n}\n\n}  // namespace","  cur_.clear();\n  init_ = true;\n}\n\n}  // namespace"]])
json.dump(B,open("/tmp/p31.json","w"),indent=1)
