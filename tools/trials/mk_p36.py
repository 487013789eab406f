import json
B=[]
S="spectator/http_client.cc"; H="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P36",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P36 P21 P22",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("nopost","    curl.post_payload(payload, size);","    ;")
bad("nosize","    curl_easy_setopt(handle_, CURLOPT_POSTFIELDSIZE, size);\n","")
bad("nofields","    curl_easy_setopt(handle_, CURLOPT_POSTFIELDS, payload_);\n","")
bad("oldpayload","    payload_ = payload;\n    curl_easy_setopt(handle_, CURLOPT_POST, 1L);\n    curl_easy_setopt(handle_, CURLOPT_POSTFIELDS, payload_);","    curl_easy_setopt(handle_, CURLOPT_POST, 1L);\n    curl_easy_setopt(handle_, CURLOPT_POSTFIELDS, payload_);\n    payload_ = payload;")
bad("postall","  if (strcmp(\"POST\", method) == 0) {","  if (strcmp(\"GET\", method) != 0) {")
bad("postfirst","  if (strcmp(\"POST\", method) == 0) {","  if (strcmp(\"POST\", method) == 0 && attempt_number == 0) {")
bad("nocustom","    curl.custom_request(method);","    ;")
bad("nourl","  curl.set_url(url);\n","")
bad("noheaders","  curl.set_headers(headers);\n","")
bad("headfirst","  curl.set_headers(headers);\n","  if (attempt_number == 0) curl.set_headers(headers);\n")
bad("notimeout","  curl.set_timeout(total_timeout);\n","")
bad("noconnect","  curl.set_connect_timeout(config_.connect_timeout);\n","")
bad("secs","auto millis = absl::ToInt64Milliseconds(total_timeout);","auto millis = absl::ToInt64Seconds(total_timeout);")
bad("onlyread","auto total_timeout = config_.connect_timeout + config_.read_timeout;","auto total_timeout = config_.connect_timeout + config_.connect_timeout;")
bad("bodyneg","  if (config_.read_body) {","  if (!config_.read_body) {")
bad("noignore","    curl.ignore_output();","    ;")
bad("nowritedata","    curl_easy_setopt(handle_, CURLOPT_WRITEDATA, static_cast<void*>(&response_));\n","")
bad("nohdata","    curl_easy_setopt(handle_, CURLOPT_HEADERDATA, static_cast<void*>(&resp_headers_));\n","")
bad("realsize","  auto real_size = size * nmemb;\n  auto* resp","  auto real_size = nmemb;\n  auto* resp") if False else bad("retnmemb","  resp->append(contents, real_size);\n  return real_size;","  resp->append(contents, real_size);\n  return nmemb;")
bad("shortbody","  resp->append(contents, real_size);","  resp->append(contents, nmemb);")
bad("div","  auto real_size = size * nmemb;\n  auto* resp","  auto real_size = size / nmemb;\n  auto* resp")
bad("hdrshort","  if (p != nullptr && p + 2 < end) {","  if (p != nullptr) {")
bad("hdrpast","    std::string value{p + 2, end - 1};  // drop last lf","    std::string value{p + 2, end + 1};")
bad("nogz","  headers->append(content_type);\n  headers->append(kGzipEncoding);\n","  headers->append(content_type);\n")
bad("gzplain","  headers->append(content_type);\n\n  if (config_.compress) {\n    headers->append(kGzipEncoding);","  headers->append(content_type);\n  headers->append(kGzipEncoding);\n\n  if (config_.compress) {")
bad("noctype","  headers->append(content_type);\n  headers->append(kGzipEncoding);\n","  headers->append(kGzipEncoding);\n")
bad("okfails","    if (compress_res != Z_OK) {","    if (compress_res == Z_OK) {")
bad("sendanyway","    if (compress_res != Z_OK) {","    if (compress_res == Z_MEM_ERROR) {")
bad("origsize","compressed_payload.get(), compressed_size, 0);","compressed_payload.get(), size, 0);")
bad("status0","      err.status = -1;","      err.status = 200;")
bad("emptylist","  for (const auto& h : headers) {\n    curl_headers->append(h);\n  }\n","")
bad("putget","  return method_header(\"PUT\", url, headers);","  return method_header(\"PUT\", url, {});",checks="P36") 
bad("zeroread","    if (read_timeout == absl::ZeroDuration()) {\n      read_timeout = absl::Seconds(3);\n    }\n","",H)
bad("zeroconn","      connect_timeout = absl::Seconds(2);","      read_timeout = absl::Seconds(2);",H)
bad("swapto","return HttpClientConfig{connect_timeout, read_timeout, true,","return HttpClientConfig{read_timeout, connect_timeout, true,",H)
bad("nobody","read_timeout, true, false, true,","read_timeout, true, false, false,",H)
bad("negzero","    if (connect_timeout == absl::ZeroDuration()) {","    if (connect_timeout != absl::ZeroDuration()) {",H)
quiet("inline","  curl.set_url(url);\n","  curl.set_opt(CURLOPT_URL, url.c_str());\n")
quiet("order","  curl.set_url(url);\n  curl.set_headers(headers);\n","  curl.set_headers(headers);\n  curl.set_url(url);\n")
quiet("switch","  if (strcmp(\"POST\", method) == 0) {\n    curl.post_payload(payload, size);\n  } else if (strcmp(\"GET\", method) != 0) {\n    curl.custom_request(method);\n  }","  const bool get = strcmp(\"GET\", method) == 0;\n  const bool post = strcmp(\"POST\", method) == 0;\n  if (post) {\n    curl.post_payload(payload, size);\n  }\n  if (!get && !post) {\n    curl.custom_request(method);\n  }")
quiet("sizelarge","CURLOPT_POSTFIELDSIZE, size","CURLOPT_POSTFIELDSIZE_LARGE, static_cast<curl_off_t>(size)")
quiet("prep","  curl.set_url(url);\n  curl.set_headers(headers);\n","  auto prepare = [&] {\n    curl.set_url(url);\n    curl.set_headers(headers);\n  };\n  prepare();\n")
quiet("strview","  if (strcmp(\"POST\", method) == 0) {","  if (std::string_view{method} == \"POST\") {")
quiet("tern","    if (read_timeout == absl::ZeroDuration()) {\n      read_timeout = absl::Seconds(3);\n    }\n","    read_timeout = read_timeout == absl::ZeroDuration() ? absl::Seconds(3) : read_timeout;\n",H)
quiet("hdrs2","  for (const auto& h : headers) {\n    curl_headers->append(h);\n  }\n","  for (size_t i = 0; i < headers.size(); ++i) {\n    curl_headers->append(headers[i]);\n  }\n")
quiet("ok","    if (compress_res != Z_OK) {","    const bool ok = compress_res == Z_OK;\n    if (!ok) {")
quiet("hdr3","  if (p != nullptr && p + 2 < end) {","  if (p == nullptr) return real_size;\n  if (end - p > 2) {")
quiet("append2","  resp->append(contents, real_size);","  resp->append(contents, contents + real_size);")
quiet("both","  auto headers = std::make_shared<CurlHeaders>();\n  headers->append(content_type);\n  headers->append(kGzipEncoding);\n","  auto headers = std::make_shared<CurlHeaders>();\n  headers->append(kGzipEncoding);\n  headers->append(content_type);\n")
bad("strlen","payload.c_str(), payload.length());","payload.c_str(), url.length());","spectator/http_client.h")
bad("getput","  return method_header(\"PUT\", url, headers);","  return method_header(\"GET\", url, headers);")
json.dump(B,open("/tmp/p36.json","w"),indent=1)
