import json
B=[]
S="spectator/http_client.cc"
P="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P22",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P22",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
G="  if (config_.external_enabled) {\n    curl.configure_metatron(config_);\n  }\n"
def so(o): 
    return next(l+"\n" for l in open("/repo/"+S).read().split("\n") if "CURLOPT_"+o+"," in l)
bad("peer0",so("SSL_VERIFYPEER"),so("SSL_VERIFYPEER").replace("1)","0)"))
bad("peerverbose",so("SSL_VERIFYPEER"),so("SSL_VERIFYPEER").replace("1)","config.verbose_requests ? 0 : 1)"),expect="bad")
for o in "SSLCERT SSLKEY CAPATH SSL_VERIFYPEER CAINFO SSL_CTX_FUNCTION SSL_CTX_DATA".split():
    bad("no"+o,so(o),"")
bad("swap",so("SSLCERT"),so("SSLCERT").replace("ssl_cert","ssl_key"),edits=[[so("SSLKEY"),so("SSLKEY").replace("cert_info.ssl_key","cert_info.ssl_cert")]])
bad("cacert",so("CAINFO"),so("CAINFO").replace("ca_info","ssl_cert"))
bad("capath",so("CAPATH"),so("CAPATH").replace("NULL",'"/etc/ssl/certs"'))
bad("appname",so("SSL_CTX_DATA"),so("SSL_CTX_DATA").replace("config.cert_info.app_name.c_str()","NULL"))
bad("byval","void configure_metatron(const HttpClientConfig& config)","void configure_metatron(HttpClientConfig config)")
bad("localname",so("SSL_CTX_DATA"),"    auto app_name = config.cert_info.app_name;\n    curl_easy_setopt(handle_, CURLOPT_SSL_CTX_DATA, app_name.c_str());\n")
bad("first",G,G.replace("if (config_","if (attempt_number == 0 && config_"))
bad("retryonly",G,G.replace("if (config_","if (attempt_number > 0 && config_"))
bad("never",G,"")
bad("inv",G,G.replace("(config_.ext","(!config_.ext"))
bad("post",G,"",edits=[["    curl.post_payload(payload, size);\n","    curl.post_payload(payload, size);\n    if (config_.external_enabled) {\n      curl.configure_metatron(config_);\n    }\n"]])
bad("https",G,G.replace("if (config_","if (url.compare(0, 5, \"https\") == 0 && payload != nullptr && config_"))
bad("after","    curl.trace_requests();\n","    curl.trace_requests();\n    curl_easy_setopt(curl.handle(), CURLOPT_SSL_VERIFYPEER, 0L);\n")
bad("after2","    curl_easy_setopt(handle_, CURLOPT_VERBOSE, 1L);\n","    curl_easy_setopt(handle_, CURLOPT_VERBOSE, 1L);\n    curl_easy_setopt(handle_, CURLOPT_SSL_VERIFYPEER, 0L);\n")
bad("reset",G,G+"  if (payload == nullptr) {\n    curl_easy_reset(curl.handle());\n    curl.set_url(url);\n  }\n")
bad("late",G,"",edits=[["  auto curl_res = curl.perform();\n","  auto curl_res = curl.perform();\n"+G]])
bad("newhandle","  auto curl_res = curl.perform();\n","  CurlHandle plain;\n  plain.set_url(url);\n  auto curl_res = config_.read_body ? curl.perform() : plain.perform();\n")
bad("native",so("CAINFO"),so("CAINFO")+"    curl_easy_setopt(handle_, CURLOPT_SSL_OPTIONS, 16L);\n")
bad("compressflag",G,G.replace("external_enabled","compress"))
bad("pubpos","cfg.external_enabled, cert_info}","cfg.debug_socket.empty(), cert_info}" if False else "cfg.verbose_http, cert_info}",file=P)
bad("pubfalse","cfg.external_enabled, cert_info}","false, cert_info}",file=P)
bad("pubfind","find_certificate(cfg.external_enabled,","find_certificate(false,",file=P)
bad("pubcert","    return HttpClientConfig{connect_timeout, read_timeout, true, false, true,","    return HttpClientConfig{connect_timeout, read_timeout, true, false, true,",file=P,edits=[["external_enabled, cert_info}","external_enabled, metatron::CertInfo{}}"]])
bad("ctor","registry_(registry), config_{std::move(config)} {}","registry_(registry), config_{std::move(config)} { config_.external_enabled = false; }")
bad("fnnull",so("SSL_CTX_FUNCTION"),so("SSL_CTX_FUNCTION").replace("metatron::sslctx_metatron_verify","NULL"))
bad("usermem",so("SSLKEY"),so("SSLKEY").replace("config.cert_info.ssl_key.c_str()",'"/etc/key.pem"'))
# kept
quiet("order",so("SSLCERT"),"",edits=[[so("SSL_CTX_DATA"),so("SSL_CTX_DATA")+so("SSLCERT")]])
quiet("wrap",so("CAINFO"),"    set_opt(CURLOPT_CAINFO, config.cert_info.ca_info.c_str());\n")
quiet("host2",so("SSL_VERIFYHOST"),so("SSL_VERIFYHOST").replace("0)","2)"))
quiet("peer1L",so("SSL_VERIFYPEER"),so("SSL_VERIFYPEER").replace("1)","1L)"))
quiet("ref",so("SSLCERT"),"    const auto& cert = config.cert_info;\n"+so("SSLCERT").replace("config.cert_info","cert"),edits=[[so("CAINFO"),so("CAINFO").replace("config.cert_info","cert")],[so("SSL_CTX_DATA"),so("SSL_CTX_DATA").replace("config.cert_info","cert")]])
quiet("early",G,"",edits=[["  CurlHandle curl;\n","  CurlHandle curl;\n"+G]])
quiet("split","  void ignore_output() {","  void verify_peer(const metatron::CertInfo& cert) {\n    curl_easy_setopt(handle_, CURLOPT_CAPATH, NULL);\n    curl_easy_setopt(handle_, CURLOPT_SSL_VERIFYPEER, 1);\n    curl_easy_setopt(handle_, CURLOPT_CAINFO, cert.ca_info.c_str());\n  }\n\n  void ignore_output() {",edits=[[so("CAPATH"),""],[so("SSL_VERIFYPEER"),""],[so("CAINFO"),"    verify_peer(config.cert_info);\n"]])
quiet("certparam","void configure_metatron(const HttpClientConfig& config) {","void configure_metatron(const metatron::CertInfo& cert_info) {",edits=[["configure_metatron(config_)","configure_metatron(config_.cert_info)"]]+[[so(o),so(o).replace("config.cert_info","cert_info")] for o in "SSLCERT SSLKEY CAINFO SSL_CTX_DATA".split()])
quiet("pubnamed","    return HttpClientConfig{connect_timeout, read_timeout, true, false, true,\n                            cfg.verbose_http, cfg.status_metrics_enabled,\n                            cfg.external_enabled, cert_info};","    HttpClientConfig http{};\n    http.connect_timeout = connect_timeout;\n    http.read_timeout = read_timeout;\n    http.compress = true;\n    http.read_body = true;\n    http.verbose_requests = cfg.verbose_http;\n    http.status_metrics_enabled = cfg.status_metrics_enabled;\n    http.external_enabled = cfg.external_enabled;\n    http.cert_info = cert_info;\n    return http;",file=P)
quiet("nostatic","auto static cert_info","auto cert_info",file=P)
quiet("flagvar","  if (config_.external_enabled) {\n    curl.","  const auto external = config_.external_enabled;\n  if (external) {\n    curl.")
json.dump(B,open("/tmp/p22.json","w"))
