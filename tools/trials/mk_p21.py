import json
B=[]
S="spectator/http_client.cc"
L="spectator/log_entry.h"
def bad(name,old,new,file=S,checks="P21",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P21",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
R2="if (is_retryable_error(http_code) && attempt_number < 2) {"
R1="if (elapsed < total_timeout && attempt_number < 2) {"
bad("lim3",R2,R2.replace("< 2","< 3"))
bad("lim1",R2,R2.replace("< 2","< 1"))
bad("lim3t",R1,R1.replace("< 2","<= 2"))
bad("nolim",R1,"if (elapsed < total_timeout) {")
bad("noinc","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, size, attempt_number + 1);","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, size, attempt_number);")
bad("all4xx","return http_code == 429 || (http_code / 100) == 5;","return http_code >= 400;")
bad("non2xx","return http_code == 429 || (http_code / 100) == 5;","return http_code / 100 != 2;")
bad("no429","return http_code == 429 || (http_code / 100) == 5;","return (http_code / 100) == 5;")
bad("only503","return http_code == 429 || (http_code / 100) == 5;","return http_code == 429 || http_code == 503;")
bad("le599","return http_code == 429 || (http_code / 100) == 5;","return http_code == 429 || (http_code > 500 && http_code < 600);")
bad("noelapsed",R1,"if (attempt_number < 2) {")
bad("elapsedread",R1,"if (elapsed < config_.read_timeout && attempt_number < 2) {")
bad("elapsedconn",R1,"if (elapsed < config_.connect_timeout && attempt_number < 2) {")
bad("onlyconn",R1,"if (curl_res == CURLE_COULDNT_CONNECT && elapsed < total_timeout && attempt_number < 2) {")
bad("finaltrue","""      entry.set_attempt(attempt_number, false);
      entry.log(config_.status_metrics_enabled);
      auto sleep_ms""","""      entry.set_attempt(attempt_number, true);
      entry.log(config_.status_metrics_enabled);
      auto sleep_ms""")
bad("finalfalse","  entry.set_attempt(attempt_number, true);\n  entry.log","  entry.set_attempt(attempt_number, false);\n  entry.log")
bad("finalcmp","  entry.set_attempt(attempt_number, true);\n  entry.log","  entry.set_attempt(attempt_number, attempt_number == 2);\n  entry.log")
bad("nolog","""      entry.set_attempt(attempt_number, false);
      entry.log(config_.status_metrics_enabled);
      auto sleep_ms""","""      entry.set_attempt(attempt_number, false);
      auto sleep_ms""")
bad("dblog","    logger->debug(\"{} {} - status code: {}\", method, url, http_code);","    entry.set_attempt(attempt_number, true);\n    entry.log(config_.status_metrics_enabled);")
bad("logguard","entry.log(config_.status_metrics_enabled);\n\n  std::string resp","entry.log(true);\n\n  std::string resp")
bad("logguard2","    if (status_metrics_enabled) {\n","    if (status_metrics_enabled || true) {\n",file=L)
bad("logoff","entry.log(config_.status_metrics_enabled);\n\n  std::string resp","entry.log(false);\n\n  std::string resp")
bad("logverbose","entry.log(config_.status_metrics_enabled);\n\n  std::string resp","entry.log(config_.verbose_requests);\n\n  std::string resp")
bad("succ400","if (http_code / 100 == 2) {","if (http_code < 400) {")
bad("succ200","if (http_code / 100 == 2) {","if (http_code == 200) {")
bad("nosucc","      entry.set_success();\n","")
bad("status0","entry.set_status_code(http_code);","entry.set_status_code(curl_res);")
bad("nostatus","    entry.set_status_code(http_code);\n","")
bad("ret0","    http_code = -1;","    http_code = 0;")
bad("ret400","    http_code = -1;","    http_code = 400;")
bad("retstatus","    http_code = -1;","    http_code = curl.status_code();")
bad("first1","payload.data, payload.size, 0);","payload.data, payload.size, 1);")
bad("firstm1","return perform(\"POST\", url, std::move(headers), payload, size, 0);","return perform(\"POST\", url, std::move(headers), payload, size, -1);")
bad("retrynull","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, size,","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), nullptr, size,")
bad("retrysize","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, size,","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, 0,")
bad("retryget","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url,","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(\"GET\", url,")
bad("retryhdr","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers),","      std::this_thread::sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::make_shared<CurlHeaders>(),")
bad("attmap","      case 1:\n        return second;","      case 2:\n        return second;",file=L)
bad("attmap0","      case 0:\n        return initial;\n","",file=L)
bad("attmap3",'intern_str("third_up")','intern_str("third")',file=L)
bad("noatt","""      entry.set_attempt(attempt_number, false);
      entry.log(config_.status_metrics_enabled);
      return perform""","""      entry.log(config_.status_metrics_enabled);
      return perform""")
bad("att+1","""      entry.set_attempt(attempt_number, false);
      entry.log(config_.status_metrics_enabled);
      return perform""","""      entry.set_attempt(attempt_number + 1, false);
      entry.log(config_.status_metrics_enabled);
      return perform""")
bad("swapfinal",'is_final ? intern_str("true") : intern_str("false")','is_final ? intern_str("false") : intern_str("true")',file=L)
bad("errsucc",'intern_str("ipc.result"), intern_str("failure")','intern_str("ipc.result"), intern_str("success")',file=L)
bad("errstat",'intern_str("ipc.status"), intern_str(error)','intern_str("ipc.status"), intern_str("http_error")',file=L)
bad("timeouterr",'entry.set_error("timeout");','entry.set_error("connection_error");')
bad("twosend","  int http_code;\n","  if (curl_res != CURLE_OK) curl_res = curl.perform();\n  int http_code;\n")
bad("logname",'Id::Of("ipc.client.call"','Id::Of("ipc.client.calls"',file=L)
bad("noretryret","      return perform(method, url, std::move(headers), payload, size, attempt_number + 1);\n    }\n    logger","      perform(method, url, std::move(headers), payload, size, attempt_number + 1);\n    }\n    logger")
bad("postguard","    if (is_retryable_error","    if (strcmp(\"GET\", method) != 0 && is_retryable_error")
# behaviour kept
quiet("retryhelper","return http_code == 429 || (http_code / 100) == 5;","if (http_code == 429) {\n    return true;\n  }\n  return http_code >= 500 && http_code < 600;")
quiet("guardswap",R2,"if (attempt_number < 2 && is_retryable_error(http_code)) {")
quiet("le1",R2,"if (attempt_number <= 1 && is_retryable_error(http_code)) {")
quiet("ifchain","""    switch (curl_res) {
      case CURLE_COULDNT_CONNECT:
        entry.set_error("connection_error");
        break;
      case CURLE_OPERATION_TIMEDOUT:
        entry.set_error("timeout");
        break;
      default:
        entry.set_error("unknown");
    }
""","""    const char* what = "unknown";
    if (curl_res == CURLE_COULDNT_CONNECT) {
      what = "connection_error";
    } else if (curl_res == CURLE_OPERATION_TIMEDOUT) {
      what = "timeout";
    }
    entry.set_error(what);
""")
quiet("loglambda","""  auto curl_res = curl.perform();
""","""  auto record = [&](bool final_attempt) {
    entry.set_attempt(attempt_number, final_attempt);
    entry.log(config_.status_metrics_enabled);
  };
  auto curl_res = curl.perform();
""",edits=[["""      entry.set_attempt(attempt_number, false);
      entry.log(config_.status_metrics_enabled);
      return perform""","      record(false);\n      return perform"],["""      entry.set_attempt(attempt_number, false);
      entry.log(config_.status_metrics_enabled);
      auto sleep""","      record(false);\n      auto sleep"],["  entry.set_attempt(attempt_number, true);\n  entry.log(config_.status_metrics_enabled);\n\n","  record(true);\n\n"]])
quiet("ternary","""    if (http_code / 100 == 2) {
      entry.set_success();
    } else {
      entry.set_error("http_error");
    }
""","""    const bool ok = http_code >= 200 && http_code < 300;
    if (!ok) {
      entry.set_error("http_error");
    } else {
      entry.set_success();
    }
""")
quiet("early","    if (elapsed < total_timeout && attempt_number < 2) {","    const bool may_retry = attempt_number < 2;\n    if (may_retry && !(elapsed >= total_timeout)) {")
quiet("next","      auto sleep_ms = uint32_t(200) << attempt_number;  // 200, 400ms\n","      auto sleep_ms = uint32_t(200) << attempt_number;  // 200, 400ms\n      const auto next = attempt_number + 1;\n",edits=[["sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, size, attempt_number + 1);","sleep_for(std::chrono::milliseconds(sleep_ms));\n      return perform(method, url, std::move(headers), payload, size, next);"]])
quiet("headersref","  curl.set_headers(headers);","  curl.set_headers(std::shared_ptr<CurlHeaders>(headers));")
quiet("logguard","    if (status_metrics_enabled) {\n      PercentileTimer timer{registry_, std::move(id_), absl::Milliseconds(1), absl::Seconds(10)};\n      timer.Record(absl::Now() - start_);\n    }","    if (!status_metrics_enabled) {\n      return;\n    }\n    PercentileTimer timer{registry_, std::move(id_), absl::Milliseconds(1), absl::Seconds(10)};\n    timer.Record(absl::Now() - start_);",file=L)
quiet("attif","""    switch (attempt_number) {
      case 0:
        return initial;
      case 1:
        return second;
      default:
        return third_up;
    }""","""    if (attempt_number == 0) return initial;
    return attempt_number == 1 ? second : third_up;""",file=L)
quiet("twotags","""    id_ = id_.WithTags(intern_str("ipc.attempt"), attempt(attempt_number),
                       intern_str("ipc.attempt.final"),
                       is_final ? intern_str("true") : intern_str("false"));""","""    id_ = id_.WithTag(intern_str("ipc.attempt"), attempt(attempt_number));
    id_ = id_.WithTag(intern_str("ipc.attempt.final"), intern_str(is_final ? "true" : "false"));""",file=L)
quiet("respdirect","  return HttpResponse{http_code, std::move(resp), std::move(resp_headers)};","  HttpResponse result{http_code, std::move(resp), std::move(resp_headers)};\n  return result;")
# the attempts as a loop
p=open("/repo/"+S).read()
a=p.index("auto HttpClient::perform(const char* method"); b=p.index("static constexpr const char* const kGzipEncoding")
body=p[a:b]
loop=body.replace("int attempt_number) const -> HttpResponse {\n","int attempt_number) const -> HttpResponse {\n  for (;;) {\n")
loop=loop.replace("return perform(method, url, std::move(headers), payload, size, attempt_number + 1);","++attempt_number;\n      continue;")
i=loop.rindex("}\n"); loop=loop[:i]+"  }\n}\n"+loop[i+2:]
quiet("loop",body,loop)
loop2=body.replace("int attempt_number) const -> HttpResponse {\n","int attempt_number) const -> HttpResponse {\n  for (;; ++attempt_number) {\n").replace("return perform(method, url, std::move(headers), payload, size, attempt_number + 1);","continue;")
i=loop2.rindex("}\n"); loop2=loop2[:i]+"  }\n}\n"+loop2[i+2:]
quiet("loopfor",body,loop2)
bad("looplim",body,loop2.replace(R2,R2.replace("< 2","< 3")))
bad("loopnoinc",body,loop.replace("      ++attempt_number;\n      continue;\n    }\n\n    http_code = -1","      continue;\n    }\n\n    http_code = -1"))
json.dump(B,open("/tmp/p21.json","w"))
