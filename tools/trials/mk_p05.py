import json
B=[]
U="server/udp_server.cc"; L="server/local_server.cc"; PU="server/proc_utils.cc"
def bad(name,old,new,file=U,checks="P05",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=U,checks="P05",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("full","recv_buffer_.size() - 1),","recv_buffer_.size()),")
bad("fullL","asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1)","asio::buffer(recv_buffer_)",L)
bad("plus","asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1)","asio::buffer(recv_buffer_.data() + 1, recv_buffer_.size() - 1)")
bad("noarm-err","                          err.message());\n        } else","                          err.message());\n          return;\n        } else")
bad("noarm-zero","        } else if (bytes_transferred > 0) {","        } else if (bytes_transferred == 0) {\n          return;\n        } else {")
bad("arm-first","          recv_buffer_[bytes_transferred] = '\\0';\n          message_handler_","          recv_buffer_[bytes_transferred] = '\\0';\n          start_udp_receive();\n          message_handler_",edits=[["        }\n        start_udp_receive();","          return;\n        }\n        start_udp_receive();"]])
bad("arm-twice","          message_handler_(std::begin(recv_buffer_));","          message_handler_(std::begin(recv_buffer_));\n          start_udp_receive();")
bad("noterm","          recv_buffer_[bytes_transferred] = '\\0';\n","")
bad("term-1","          recv_buffer_[bytes_transferred] = '\\0';\n","          recv_buffer_[bytes_transferred - 1] = '\\0';\n")
bad("term+1","          recv_buffer_[bytes_transferred] = '\\0';\n","          recv_buffer_[bytes_transferred + 1] = '\\0';\n",L)
bad("term-cond","          recv_buffer_[bytes_transferred] = '\\0';\n","          if (recv_buffer_[bytes_transferred - 1] != '\\n') recv_buffer_[bytes_transferred] = '\\0';\n",L)
bad("term-end","          recv_buffer_[bytes_transferred] = '\\0';\n","          recv_buffer_.back() = '\\0';\n",L)
bad("err-pass","        if (err) {\n          Logger()->error(\"Error receiving: {}: {}\", err.value(),\n                          err.message());\n        } else if (bytes_transferred > 0) {","        if (err && bytes_transferred == 0) {\n          Logger()->error(\"Error receiving: {}: {}\", err.value(),\n                          err.message());\n        } else if (bytes_transferred > 0) {")
bad("drop-small","        } else if (bytes_transferred > 0) {","        } else if (bytes_transferred > 1) {")
bad("drop-large","        } else if (bytes_transferred > 0) {","        } else if (bytes_transferred > 0 && bytes_transferred < 65000) {")
bad("handoff","std::begin(recv_buffer_)","recv_buffer_.data() + 1")
bad("rd","read(fd, buf, sizeof buf - 1)","read(fd, buf, sizeof buf)",PU)
bad("rd2","      buf[n] = '\\0';\n","",PU)
bad("rd3","if (n > 0) {","if (n != 0) {",PU)
bad("fg","fgets(line, sizeof line, udp) != nullptr) {","fgets(line, sizeof line + 1, udp) != nullptr) {",PU)
bad("fields","fields.size() < 17","fields.size() < 16",PU)
quiet("helper","        if (err) {\n          Logger()->error(\"Error receiving: {}: {}\", err.value(),\n                          err.message());\n        } else if (bytes_transferred > 0) {\n          recv_buffer_[bytes_transferred] = '\\0';\n          message_handler_(std::begin(recv_buffer_));\n        }\n        start_udp_receive();","        on_receive(err, bytes_transferred);",edits=[["void UdpServer::start_udp_receive() {","void UdpServer::on_receive(const std::error_code& err, size_t n) {\n  if (err) {\n    Logger()->error(\"Error receiving: {}: {}\", err.value(), err.message());\n    start_udp_receive();\n    return;\n  }\n  if (n > 0) {\n    auto* text = recv_buffer_.data();\n    text[n] = '\\0';\n    message_handler_(text);\n  }\n  start_udp_receive();\n}\n\nvoid UdpServer::start_udp_receive() {"],["server/udp_server.h","  void start_udp_receive();","  void on_receive(const std::error_code& err, size_t n);\n  void start_udp_receive();"]])
quiet("const","      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),","      asio::buffer(recv_buffer_, kMaxDatagram),",edits=[["namespace spectatord {\n","namespace spectatord {\nstatic constexpr std::size_t kMaxDatagram = 65535;\n"]])
quiet("order","        if (err) {\n          Logger()->error(\"Error receiving: {}: {}\", err.value(),\n                          err.message());\n        } else if (bytes_transferred > 0) {\n          recv_buffer_[bytes_transferred] = '\\0';\n          message_handler_(std::begin(recv_buffer_));\n        }","        const bool ok = !err;\n        if (ok) {\n          if (bytes_transferred > 0) {\n            recv_buffer_.at(bytes_transferred) = '\\0';\n            message_handler_(recv_buffer_.data());\n          }\n        } else {\n          Logger()->error(\"Error receiving: {}: {}\", err.value(),\n                          err.message());\n        }")
quiet("rd","int n = read(fd, buf, sizeof buf - 1);","const ssize_t n = read(fd, buf, sizeof(buf) - 1);",PU)
quiet("rdlen","    int n = read(fd, buf, sizeof buf - 1);\n    if (n > 0) {\n      buf[n] = '\\0';\n      if (!absl::SimpleAtoi(buf, &result)) {","    int n = read(fd, buf, sizeof buf);\n    if (n > 0) {\n      if (!absl::SimpleAtoi(absl::string_view(buf, n), &result)) {",PU)
B=[b for b in B if b]
json.dump(B,open("/tmp/p05.json","w"))
