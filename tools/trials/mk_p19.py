import json
B=[]
S="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P19",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P19",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("to-1","std::advance(to, to_advance);","std::advance(to, to_advance - 1);")
bad("to+1","std::advance(to, to_advance);","std::advance(to, to_advance + 1);")
bad("fromfrom","batches.emplace_back(from, to);","batches.emplace_back(from, from);")
bad("fromend","batches.emplace_back(from, to);","batches.emplace_back(from, end);")
bad("toend-1","auto to_end = std::distance(from, end);","auto to_end = std::distance(from, end) - 1;")
bad("gap","      from = to;\n","      from = to + 1;\n")
bad("last","batches.emplace_back(from, to);","if (to != end || from == measurements.begin()) batches.emplace_back(from, to);")
bad("nobatch","auto to_advance = std::min(batch_size, to_end);","auto to_advance = to_end;")
bad("max","auto to_advance = std::min(batch_size, to_end);","auto to_advance = std::max(batch_size, to_end);")
bad("while1","    while (from != end) {","    while (std::distance(from, end) > 1) {")
bad("whilebs","    while (from != end) {","    while (std::distance(from, end) >= batch_size) {")
bad("begin+1","auto from = measurements.begin();","auto from = measurements.begin() + 1;")
bad("end-1","auto end = measurements.end();","auto end = measurements.end() - 1;")
bad("max1","std::max(cfg.batch_size, 1)","cfg.batch_size")
bad("refall","asio::post(pool_, [this, batch, &batches_to_do, &client, &responses,\n                         &buffers_mutex, &avail_buffers, &responses_mutex]() {","const auto b2 = batch;\n      asio::post(pool_, [&]() {\n        const auto& batch = b2;",)
bad("noreturn","          avail_buffers.emplace_back(payload);\n","")
bad("twice","          avail_buffers.emplace_back(payload);\n","          avail_buffers.emplace_back(payload);\n          avail_buffers.emplace_back(payload);\n")
bad("front","payload = avail_buffers.back();","payload = avail_buffers.front();")
bad("nopop","          avail_buffers.pop_back();\n","")
bad("early","        measurements_to_json(payload, batch.first, batch.second);\n        auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());\n        {","        measurements_to_json(payload, batch.first, batch.second);\n        {\n          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n        }\n        auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());\n        {",edits=[["        {\n          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n        }\n        batches_to_do","        batches_to_do"]])
bad("nolock","""        {
          absl::MutexLock lock(&buffers_mutex);
          avail_buffers.emplace_back(payload);
        }""","          avail_buffers.emplace_back(payload);")
bad("otherlock","""          absl::MutexLock lock(&buffers_mutex);
          avail_buffers.emplace_back(payload);""","""          absl::MutexLock lock(&responses_mutex);
          avail_buffers.emplace_back(payload);""")
bad("poplocknone","""          absl::MutexLock lock(&buffers_mutex);
          payload = avail_buffers.back();""","""          payload = avail_buffers.back();""")
bad("writebefore","        measurements_to_json(payload, batch.first, batch.second);\n        auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());","        auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());\n        measurements_to_json(payload, batch.first, batch.second);")
bad("writeall","measurements_to_json(payload, batch.first, batch.second);\n        auto","measurements_to_json(payload, batch.first, batch.second - 1);\n        auto")
bad("otherpay","payload->Result());","buffers_[0].Result());")
bad("respsize","          auto batch_size = batch.second - batch.first;","          auto batch_size = batch.second - batch.first - 1;")
bad("respbs","          auto batch_size = batch.second - batch.first;\n","",edits=[["[this, batch, &batches_to_do","[this, batch, batch_size, &batches_to_do"]])
bad("resp2","          responses.emplace_back(batch_size, std::move(response));","          responses.emplace_back(batch_size, response);\n          responses.emplace_back(batch_size, std::move(response));")
bad("resp-ok","          responses.emplace_back(batch_size, std::move(response));","          if (response.status != -1) responses.emplace_back(batch_size, std::move(response));")
bad("nodec-fail","        batches_to_do.DecrementCount();","        if (last_successful_send_ > 0) batches_to_do.DecrementCount();")
bad("dec2","        batches_to_do.DecrementCount();","        batches_to_do.DecrementCount();\n        batches_to_do.DecrementCount();")
bad("earlyret","        {\n          absl::MutexLock lock(&responses_mutex);\n          auto","        if (response.status == -1) return;\n        {\n          absl::MutexLock lock(&responses_mutex);\n          auto")
bad("counter-1","static_cast<int>(batches.size())}","static_cast<int>(batches.size() - 1)}")
bad("counter1","static_cast<int>(batches.size())}","1}")
bad("countermeas","static_cast<int>(batches.size())}","static_cast<int>(measurements.size())}")
bad("nowait","    batches_to_do.Wait();\n","")
bad("latewait","    batches_to_do.Wait();\n","",edits=[["    auto elapsed = absl::Now() - start;\n    if (num_err","    batches_to_do.Wait();\n    auto elapsed = absl::Now() - start;\n    if (num_err"]])
bad("resize","buffers_.resize(num_sender_threads_);","buffers_.resize(num_sender_threads_ / 2);")
bad("resize1","buffers_.resize(num_sender_threads_);","buffers_.resize(1);")
bad("resize-1","buffers_.resize(num_sender_threads_);","buffers_.resize(num_sender_threads_ - 1);")
bad("nomax","std::max(1U, std::min(8U, std::thread::hardware_concurrency()))","std::min(8U, std::thread::hardware_concurrency())")
bad("skip2","|| measurements.empty()","|| measurements.size() < 2")
bad("skipsz","|| measurements.empty()","|| measurements.size() < static_cast<size_t>(batch_size)")
bad("stamp0","if (response.status / 100 == 2) {","if (response.status > 0) {")
bad("stampall","if (response.status / 100 == 2) {","{")
bad("stamp200","if (response.status / 100 == 2) {","if (response.status == 200) {")
bad("stamp4","if (response.status / 100 == 2) {","if (response.status / 100 <= 4) {")
bad("skiptask","    for (const auto& batch : batches) {\n","    for (const auto& batch : batches) {\n      if (batch.second - batch.first < 2) continue;\n")
bad("breakloop","    for (const auto& batch : batches) {\n","    for (const auto& batch : batches) {\n      if (should_stop_) break;\n")
quiet("status200","if (response.status / 100 == 2) {","if (response.status >= 200 && response.status < 300) {")
quiet("helper","      auto to_end = std::distance(from, end);\n      auto to_advance = std::min(batch_size, to_end);\n      auto to = from;\n      std::advance(to, to_advance);\n","      auto to = next_batch(from, end, batch_size);\n",edits=[["  void send_metrics() {","  template <typename It, typename D>\n  static It next_batch(It from, It end, D batch_size) {\n    auto n = std::min<D>(batch_size, end - from);\n    return from + n;\n  }\n\n  void send_metrics() {"]])
quiet("iter","    for (const auto& batch : batches) {\n","    for (auto bi = batches.cbegin(); bi != batches.cend(); ++bi) {\n      const auto& batch = *bi;\n")
quiet("idx","    for (const auto& batch : batches) {\n","    for (size_t bi = 0; bi < batches.size(); ++bi) {\n      const auto& batch = batches[bi];\n")
quiet("named","asio::post(pool_, [this, batch,","auto task = [this, batch,",edits=[["        batches_to_do.DecrementCount();\n      });","        batches_to_do.DecrementCount();\n      };\n      asio::post(pool_, task);"]])
quiet("namedmv","asio::post(pool_, [this, batch,","auto task = [this, batch,",edits=[["        batches_to_do.DecrementCount();\n      });","        batches_to_do.DecrementCount();\n      };\n      asio::post(pool_, std::move(task));"]])
quiet("while<","    while (from != end) {","    while (from < end) {")
quiet("forloop","    while (from != end) {\n      auto to_end","    for (; from != end;) {\n      auto to_end")
quiet("tern","auto to_advance = std::min(batch_size, to_end);","auto to_advance = batch_size < to_end ? batch_size : to_end;")
quiet("ctor","      batches.emplace_back(from, to);","      batches.push_back(std::make_pair(from, to));")
quiet("mvpair","      batches.emplace_back(from, to);","      batches.push_back({from, to});")
quiet("availloop","""    std::transform(buffers_.begin(), buffers_.end(),
                   std::back_inserter(avail_buffers),
                   [](auto& b) { return &b; });""","""    for (auto& b : buffers_) {
      avail_buffers.push_back(&b);
    }""")
quiet("lockhelper","        SmilePayload* payload = nullptr;\n        {\n          absl::MutexLock lock(&buffers_mutex);\n          payload = avail_buffers.back();\n          avail_buffers.pop_back();\n        }","        SmilePayload* payload = take(&buffers_mutex, &avail_buffers);",edits=[["  void send_metrics() {","  static auto take(absl::Mutex* m, std::vector<SmilePayload*>* v) -> SmilePayload* {\n    absl::MutexLock lock(m);\n    auto* p = v->back();\n    v->pop_back();\n    return p;\n  }\n\n  void send_metrics() {"]])
quiet("explicit","          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n","          buffers_mutex.Lock();\n          avail_buffers.push_back(payload);\n          buffers_mutex.Unlock();\n")
quiet("swaporder","        {\n          absl::MutexLock lock(&responses_mutex);\n          auto batch_size = batch.second - batch.first;\n          if (response.status / 100 == 2) {\n            last_successful_send_ = absl::GetCurrentTimeNanos();\n          }\n          responses","        {\n          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n        }\n        {\n          absl::MutexLock lock(&responses_mutex);\n          auto batch_size = batch.second - batch.first;\n          if (response.status / 100 == 2) {\n            last_successful_send_ = absl::GetCurrentTimeNanos();\n          }\n          responses",edits=[["        {\n          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n        }\n        batches_to_do","        batches_to_do"]])
quiet("stampout","        {\n          absl::MutexLock lock(&responses_mutex);\n          auto batch_size = batch.second - batch.first;\n          if (response.status / 100 == 2) {\n            last_successful_send_ = absl::GetCurrentTimeNanos();\n          }\n","        if (response.status / 100 == 2) {\n            last_successful_send_.store(absl::GetCurrentTimeNanos());\n          }\n        {\n          absl::MutexLock lock(&responses_mutex);\n          auto batch_size = std::distance(batch.first, batch.second);\n")
quiet("dosend","    batches_to_do.Wait();\n","    batches_to_do.Wait();\n    logger->debug(\"all {} batches done\", batches.size());\n")
quiet("empty","if (!cfg.is_enabled() || measurements.empty()) {","const bool nothing = measurements.size() == 0;\n    if (nothing || !cfg.is_enabled()) {")
quiet("taskfn","        measurements_to_json(payload, batch.first, batch.second);\n        auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());","        auto response = send_batch(&client, payload, uri, batch.first, batch.second);",edits=[["  void send_metrics() {","  template <typename It>\n  auto send_batch(HttpClient* client, SmilePayload* payload, const std::string& uri, It first, It last) -> HttpResponse {\n    measurements_to_json(payload, first, last);\n    return client->Post(uri, HttpClient::kSmileJson, payload->Result());\n  }\n\n  void send_metrics() {"]])
quiet("splitfn","""    std::vector<std::pair<Measurements::const_iterator, Measurements::const_iterator>> batches;

    while (from != end) {
      auto to_end = std::distance(from, end);
      auto to_advance = std::min(batch_size, to_end);
      auto to = from;
      std::advance(to, to_advance);
      batches.emplace_back(from, to);
      from = to;
    }
""","""    auto batches = split(from, end, batch_size);
""",edits=[["  void send_metrics() {","""  template <typename It, typename D>
  static auto split(It from, It end, D batch_size) -> std::vector<std::pair<Measurements::const_iterator, Measurements::const_iterator>> {
    std::vector<std::pair<Measurements::const_iterator, Measurements::const_iterator>> batches;
    while (from != end) {
      auto to_end = std::distance(from, end);
      auto to_advance = std::min(batch_size, to_end);
      auto to = from;
      std::advance(to, to_advance);
      batches.emplace_back(from, to);
      from = to;
    }
    return batches;
  }

  void send_metrics() {"""]])
quiet("workers","      num_sender_threads_{std::max(1U, std::min(8U, std::thread::hardware_concurrency()))},","      num_sender_threads_{std::min(8U, std::max(1U, std::thread::hardware_concurrency()))},")
quiet("idxsplit","""    while (from != end) {
      auto to_end = std::distance(from, end);
      auto to_advance = std::min(batch_size, to_end);
      auto to = from;
      std::advance(to, to_advance);
      batches.emplace_back(from, to);
      from = to;
    }
""","""    const auto total = std::distance(from, end);
    for (decltype(batch_size) i = 0; i < total; i += batch_size) {
      batches.emplace_back(from + i, from + std::min(i + batch_size, total));
    }
""")
quiet("refbatch","asio::post(pool_, [this, batch, &batches","asio::post(pool_, [this, &batch, &batches")
bad("decearly","        {\n          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n        }\n        batches_to_do.DecrementCount();","        batches_to_do.DecrementCount();\n        {\n          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);\n        }")
json.dump(B,open("/tmp/p19.json","w"))
