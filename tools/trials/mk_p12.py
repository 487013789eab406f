import json
B=[]
H="spectator/registry.h"; C="spectator/registry.cc"
def bad(name,old,new,file=H,checks="P12",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=H,checks="P12",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("noloop","      while (it != end) {\n        ++total;","      while (it == end) {\n        ++total;")
bad("noinc","        } else {\n          ++it;\n        }","        } else {\n        }")
bad("skipone","          it = meters_.erase(it);\n          ++expired;","          it = meters_.erase(it);\n          ++expired;\n          if (it != end) ++it;")
bad("nodefault","  if (meter_ttl_ == 0) {","  if (false) {",C)

quiet("forloop","      auto it = meters_.begin();\n      auto end = meters_.end();\n      while (it != end) {\n        ++total;","      auto end = meters_.end();\n      for (auto it = meters_.begin(); it != end;) {\n        ++total;")
quiet("break","      while (it != end) {\n        ++total;","      while (true) {\n        if (it == end) break;\n        ++total;")
quiet("postinc","        } else {\n          ++it;\n        }","        } else {\n          it++;\n        }")
quiet("cont","          ++expired;\n        } else {\n          ++it;\n        }","          ++expired;\n          continue;\n        }\n        ++it;")
quiet("tern","  if (meter_ttl_ == 0) {\n    meter_ttl_ = int64_t(15) * 60 * 1000 * 1000 * 1000;\n  }","  meter_ttl_ = meter_ttl_ != 0 ? meter_ttl_ : int64_t(900) * 1000 * 1000 * 1000;",C)
json.dump(B,open("/tmp/p12.json","w"),indent=1)
