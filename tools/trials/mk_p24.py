import json
B=[]
S="admin/admin_server.cc"
def bad(name,old,new,file=S,checks="P24",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P23 P24",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
TYPE='''      res.send() << R"({"message": "tag values must be strings"})";
      return;
'''
bad("no-return",TYPE,TYPE.replace("      return;\n",""),checks="P24")
bad("no-return2",'''    res.send() << R"({"message": "json parse exception"})";
    return;
''','''    res.send() << R"({"message": "json parse exception"})";
''')
bad("no-send",'''      logger->error("DELETE /metrics/{} failed: meter not found '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
      res.setReason("Not Found");
      res.send();
''','''      logger->error("DELETE /metrics/{} failed: meter not found '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
      res.setReason("Not Found");
''')
bad("no-send-404",'''    this->logger->error("AdminServer unknown endpoint method={} uri={} ", req.getMethod(), req.getURI());
    res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
    res.setReason("Not Found");
    res.send();
''','''    this->logger->error("AdminServer unknown endpoint method={} uri={} ", req.getMethod(), req.getURI());
    if (req.getMethod() == "HEAD") return;
    res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
    res.setReason("Not Found");
    res.send();
''')
bad("late-status",'''      res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
      res.setReason("Not Found");
      res.send();
    }
  }
}''','''      res.send();
      res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
      res.setReason("Not Found");
    }
  }
}''')
bad("status-del",'''      logger->info("DELETE /metrics/{} succeeded: '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_OK);''','''      logger->info("DELETE /metrics/{} succeeded: '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_NO_CONTENT);''')
bad("ignore-result","if (registry.DeleteMeter(type, id)) {","registry.DeleteMeter(type, id);\n    if (true) {")
bad("neg-result","if (registry.DeleteMeter(type, id)) {","if (!registry.DeleteMeter(type, id)) {")
bad("forbidden",'''    if (localhost_found) {
      POST_config_common_tags(req, res, this->logger, this->allowed_tags, this->registry);
    } else {
      this->logger->error("AdminServer endpoint may only be accessed from localhost method={} uri={} ", req.getMethod(), req.getURI());
      res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);''','''    if (localhost_found) {
      POST_config_common_tags(req, res, this->logger, this->allowed_tags, this->registry);
    } else {
      this->logger->error("AdminServer endpoint may only be accessed from localhost method={} uri={} ", req.getMethod(), req.getURI());
      res.setStatus(HTTPResponse::HTTP_FORBIDDEN);''')
bad("no-status",'''  if (result.type() != typeid(Object::Ptr)) {
    res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
''','''  if (result.type() != typeid(Object::Ptr)) {
''')
bad("no-object",'''  if (result.type() != typeid(Object::Ptr)) {
    res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
    res.setReason("Bad Request");
    res.setContentType("application/json");
    res.send() << R"({"message": "expected a json object"})";
    return;
  }

''','')
bad("catch-narrow","} catch (Poco::Exception& e) {\n    logger->error(\"POST /config/common_tags json parse error: {}\", e.message());","} catch (std::runtime_error& e) {\n    logger->error(\"POST /config/common_tags json parse error: {}\", e.what());")
bad("rethrow",'''    res.send() << R"({"message": "json parse exception"})";
    return;
''','''    throw;
''')
bad("double",'''  res.setStatus(HTTPResponse::HTTP_OK);
  res.setContentType("application/json");
  res.send() << R"({"message": "common tags updated"})";''','''  res.setStatus(HTTPResponse::HTTP_OK);
  res.setContentType("application/json");
  if (object->size() == 0) {
    res.send() << R"({"message": "nothing to do"})";
  }
  res.send() << R"({"message": "common tags updated"})";''')
bad("empty-silent",'''  Object::Ptr object = result.extract<Object::Ptr>();
''','''  Object::Ptr object = result.extract<Object::Ptr>();
  if (object->size() == 0) {
    return;
  }
''')
bad("loop-send",'''      logger->info("delete common tag {}", it.first);
''','''      res.send() << "deleted";
''')
bad("root-404",'''  res.setStatus(HTTPResponse::HTTP_OK);
  res.setContentType("application/json");
  res.send() << "{"
             << R"("desc''','''  res.setStatus(HTTPResponse::HTTP_ACCEPTED);
  res.setContentType("application/json");
  res.send() << "{"
             << R"("desc''')
bad("del-unknown",'''    res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
    res.setReason("Not Found");
    res.send();
  } else {
    auto id''','''    res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
    res.setReason("Bad Request");
    res.send();
  } else {
    auto id''')
bad("get-trail",'req.getURI() == "/config" && req.getMethod() == "GET"','req.getURI().rfind("/config", 0) == 0 && req.getMethod() == "GET"')
bad("get-any",'req.getURI() == "/metrics" && req.getMethod() == "GET"','req.getURI() == "/metrics"')
bad("else-if",'''  } else if (req.getURI() == "/config" && req.getMethod() == "GET") {''','''  }
  if (req.getURI() == "/config" && req.getMethod() == "GET") {''')
bad("conv",'''    if (it.second.type() != typeid(std::string)) {''','''    if (it.second.type() == typeid(int)) {''',checks="P23 P24")
quiet("one-exit",'''      res.setStatus(HTTPResponse::HTTP_OK);
      res.send();
    } else {
      logger->error("DELETE /metrics/{} failed: meter not found '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
      res.setReason("Not Found");
      res.send();
    }
''','''      res.setStatus(HTTPResponse::HTTP_OK);
    } else {
      logger->error("DELETE /metrics/{} failed: meter not found '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
      res.setReason("Not Found");
    }
    res.send();
''')
quiet("status-fn",'''    auto id = parse_id(req.getURI().substr(11));
    if (registry.DeleteMeter(type, id)) {
      logger->info("DELETE /metrics/{} succeeded: '{}'", type, id);
      res.setStatus(HTTPResponse::HTTP_OK);
      res.send();
    } else {''','''    auto id = parse_id(req.getURI().substr(11));
    const bool deleted = registry.DeleteMeter(type, id);
    if (deleted) {
      respond(res, HTTPResponse::HTTP_OK);
    } else {''',edits=[["void DELETE_metrics(","static void respond(HTTPServerResponse& res, HTTPResponse::HTTPStatus status) {\n  res.setStatus(status);\n  res.send();\n}\n\nvoid DELETE_metrics("]])
quiet("var",'''    result = parser.parse(req.stream());''','''    auto& body = req.stream();
    result = parser.parse(body);''')
quiet("catchall","} catch (Poco::Exception& e) {\n    logger->error(\"POST /config/common_tags json parse error: {}\", e.message());","} catch (const std::exception& e) {\n    logger->error(\"POST /config/common_tags json parse error: {}\", e.what());")
quiet("stream",'''  res.send() << R"({"message": "common tags updated"})";''','''  std::ostream& out = res.send();
  out << R"({"message": "common tags updated"})";''')
quiet("early",'''  if (req.getURI() == "/" && req.getMethod() == "GET") {
    // describe admin service
    GET_root(req, res);
  } else if''','''  if (req.getURI() == "/" && req.getMethod() == "GET") {
    // describe admin service
    GET_root(req, res);
    return;
  }
  if''')
quiet("code","    res.setStatus(HTTPResponse::HTTP_OK);\n    res.send();\n  } else if","    res.setStatus(\"200\");\n    res.send();\n  } else if")
json.dump(B,open("/tmp/p24.json","w"))
