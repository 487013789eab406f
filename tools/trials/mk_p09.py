import json
B=[]
H="spectator/tags.h"
def bad(name,old,new,file=H,checks="P09",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=H,checks="P09",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
CB="      std::copy_backward(it, end(), end() + 1);"
bad("copyfwd",CB,"      std::copy(it, end(), it + 1);")
bad("cb-short",CB,"      std::copy_backward(it, end() - 1, end());")
bad("cb-long",CB,"      std::copy_backward(it, end() + 1, end() + 2);")
bad("mv-nocap","      o.begin_ = nullptr;\n      U.capacity_ = o.U.capacity_;\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy(o.begin(), o.end(), begin());\n    }\n  }\n\n  Tags(const","      o.begin_ = nullptr;\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy(o.begin(), o.end(), begin());\n    }\n  }\n\n  Tags(const")
bad("mv-nonull","      // take ownership of the memory\n      o.begin_ = nullptr;\n","      // take ownership of the memory\n")
bad("mv-inline-alias","  Tags(Tags&& o) noexcept : size_{o.size_}, begin_{o.begin_} {\n    if (is_large()) {\n      // take ownership of the memory\n      o.begin_ = nullptr;\n      U.capacity_ = o.U.capacity_;\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy","  Tags(Tags&& o) noexcept : size_{o.size_}, begin_{o.begin_} {\n    if (is_large()) {\n      // take ownership of the memory\n      o.begin_ = nullptr;\n      U.capacity_ = o.U.capacity_;\n    } else {\n      std::copy")
bad("cp-nocap","      begin_ = static_cast<Tag*>(malloc(sizeof(Tag) * size_));\n      U.capacity_ = size_;","      begin_ = static_cast<Tag*>(malloc(sizeof(Tag) * size_));")
bad("cp-capsrc","      U.capacity_ = size_;\n    } else","      U.capacity_ = o.U.capacity_;\n    } else")
bad("cp-small","malloc(sizeof(Tag) * size_)","malloc(sizeof(StrRef) * size_)")
bad("cp-share","      begin_ = static_cast<Tag*>(malloc(sizeof(Tag) * size_));","      begin_ = o.begin_;")
bad("cp-inlarge","    std::copy(o.begin(), o.end(), begin());\n  }\n\n  auto operator=(const","    std::copy(o.begin(), o.begin() + std::min(size_, kSmallTags), begin());\n  }\n\n  auto operator=(const")
bad("as-nofree","    if (is_large()) {\n      free(begin_);\n    }\n    size_ = o.size_;","    size_ = o.size_;")
bad("as-freelate","    if (is_large()) {\n      free(begin_);\n    }\n    size_ = o.size_;\n    if (is_large()) {","    size_ = o.size_;\n    if (is_large()) {\n      free(begin_);\n    }\n    if (is_large()) {")
bad("as-noself","    if (this == &o) {\n      return *this;\n    }\n","")
bad("as-nonull","      begin_ = o.begin_;\n      o.begin_ = nullptr;\n      U","      begin_ = o.begin_;\n      U")
bad("as-nocap","      begin_ = o.begin_;\n      o.begin_ = nullptr;\n      U.capacity_ = o.U.capacity_;\n","      begin_ = o.begin_;\n      o.begin_ = nullptr;\n")
bad("as-nobegin","      U.capacity_ = o.U.capacity_;\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy(o.begin(), o.end(), begin());\n    }\n    return *this;","      U.capacity_ = o.U.capacity_;\n    } else {\n      std::copy(o.begin(), o.end(), begin());\n    }\n    return *this;")
bad("as-size","    size_ = o.size_;\n    if (is_large()) {\n      begin_ = o","    size_ = o.size_;\n    if (o.size_ >= kSmallTags) {\n      begin_ = o")
bad("dt","  ~Tags() noexcept {\n    if (is_large()) {\n      free(begin_);\n    }","  ~Tags() noexcept {\n    if (capacity() > kSmallTags + 4) {\n      free(begin_);\n    }")
bad("dt2","  ~Tags() noexcept {\n    if (is_large()) {\n      free(begin_);\n    }","  ~Tags() noexcept {\n    if (is_large() && U.capacity_ != size_) {\n      free(begin_);\n    }")
bad("large-ge","return size_ > kSmallTags;","return size_ >= kSmallTags;")
bad("comp-le","auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });","auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return !(k < tag.key); });") if False else None
bad("comp-val","  auto insert(StrRef k, StrRef v) -> void {\n    auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });","  auto insert(StrRef k, StrRef v) -> void {\n    auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return tag.value < k; });")
bad("comp-rev","  auto insert(StrRef k, StrRef v) -> void {\n    auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });","  auto insert(StrRef k, StrRef v) -> void {\n    auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return k < tag.key; });")
bad("has-nokey","    return it != end() && it->key == key;","    return it != end();")
bad("has-end","    return it != end() && it->key == key;","    return it->key == key;")
bad("at-key","    return it->value;","    return it->key;")
bad("at-noend","    if (it == end() || it->key != key) {","    if (it == end() && it->key != key) {")
bad("at-swap","    if (it == end() || it->key != key) {","    if (it->key != key || it == end()) {")
bad("upd-key","        it->value = v;\n        return;","        return;")
bad("upd-dup","      if (it->key == k) {\n        it->value = v;\n        return;","      if (it->key == k && it->value == v) {\n        return;")
bad("no-it","        reallocate();\n        it = begin() + diff;","        reallocate();")
bad("diff-it","        reallocate();\n        it = begin() + diff;","        reallocate();\n        it = begin() + diff + 1;")
bad("end-noit","      reallocate();\n      it = end();","      reallocate();")
bad("full-inl","      if (size() == capacity()) {\n        auto diff","      if (!is_large() && size() == capacity()) {\n        auto diff")
bad("full-end","    } else if (size() == capacity()) {","    } else if (!is_large() && size() == capacity()) {")
bad("full-gt","    } else if (size() == capacity()) {","    } else if (size() > capacity()) {")
bad("swapkv","    *it = {k, v};","    *it = {v, k};")
bad("nosize","    ++size_;","    if (it != end()) ++size_;")
bad("re-capfirst","      begin_ = static_cast<Tag*>(malloc(capacity_bytes));\n      std::copy(&U.entries_[0], &U.entries_[size_], begin());\n      U.capacity_ = c + 4;","      begin_ = static_cast<Tag*>(malloc(capacity_bytes));\n      U.capacity_ = c + 4;\n      std::copy(&U.entries_[0], &U.entries_[size_], begin());")
bad("re-cap8","      U.capacity_ += 4;","      U.capacity_ += 8;")
bad("re-capmul","      U.capacity_ += 4;","      U.capacity_ *= 2;")
bad("re-size","    auto capacity_bytes = (c + 4) * sizeof(Tag);","    auto capacity_bytes = c * sizeof(Tag) + 4;")
bad("re-add1","    auto capacity_bytes = (c + 4) * sizeof(Tag);","    auto capacity_bytes = (size_) * sizeof(Tag);")
bad("re-nocopy","      std::copy(&U.entries_[0], &U.entries_[size_], begin());\n","")
bad("re-malloc","      begin_ = static_cast<Tag*>(realloc(begin(), capacity_bytes));","      auto* p = static_cast<Tag*>(malloc(capacity_bytes));\n      std::copy(begin(), end(), p);\n      begin_ = p;")
bad("re-freefirst","      begin_ = static_cast<Tag*>(realloc(begin(), capacity_bytes));","      auto* p = static_cast<Tag*>(malloc(capacity_bytes));\n      free(begin_);\n      std::copy(begin(), end(), p);\n      begin_ = p;")
bad("eq-bytes","memcmp(mine, theirs, sizeof(Tag) * size())","memcmp(mine, theirs, size())")
bad("eq-cap","memcmp(mine, theirs, sizeof(Tag) * size())","memcmp(mine, theirs, sizeof(Tag) * std::min(size(), kSmallTags))")
bad("eq-nosize","    if (size_ != that.size_) {\n      return false;\n    }\n","")
bad("eq-lt","    if (size_ != that.size_) {","    if (size_ < that.size_) {")
bad("aa-swap","      insert(entry.key, entry.value);","      insert(entry.value, entry.key);")
bad("aa-skip","      insert(entry.key, entry.value);","      if (!has(entry.key)) insert(entry.key, entry.value);")
bad("aa-key","      insert(entry.key, entry.value);","      insert(entry.key, it->value);")
bad("aa-cond","    while (it != source.end()) {\n      const auto& entry = *it++;\n      insert","    while (it != source.end() && size_ < 64) {\n      const auto& entry = *it++;\n      insert")
bad("il-swap","      add(pair.first, pair.second);","      add(pair.second, pair.first);")
bad("add-swap","  auto add(std::string_view k, std::string_view v) -> void {\n    insert(intern_str(k), intern_str(v));","  auto add(std::string_view k, std::string_view v) -> void {\n    insert(intern_str(v), intern_str(k));")
bad("add-kk","  auto add(const char* k, const char* v) -> void {\n    insert(intern_str(k), intern_str(v));","  auto add(const char* k, const char* v) -> void {\n    insert(intern_str(k), intern_str(k));")
bad("add-noover","  auto add(StrRef k, StrRef v) -> void { insert(k, v); }","  auto add(StrRef k, StrRef v) -> void { if (!has(k)) insert(k, v); }")
bad("hash-cap","    size_t h = 0U;","    size_t h = capacity();")
bad("hash-ptr","    size_t h = 0U;","    size_t h = reinterpret_cast<size_t>(begin_);")
# behaviour preserving
quiet("memmove",CB,"      std::memmove(it + 1, it, static_cast<size_t>(end() - it) * sizeof(Tag));")
quiet("loopmove",CB,"      for (auto* p = end(); p != it; --p) {\n        *p = *(p - 1);\n      }")
quiet("move_backward",CB,"      std::move_backward(it, end(), end() + 1);")
quiet("copy_n","    static_assert(std::is_trivially_copyable<Tag>::value);\n    std::copy(o.begin(), o.end(), begin());","    static_assert(std::is_trivially_copyable<Tag>::value);\n    std::copy_n(o.begin(), size_, begin());")
quiet("memcpy","    static_assert(std::is_trivially_copyable<Tag>::value);\n    std::copy(o.begin(), o.end(), begin());","    static_assert(std::is_trivially_copyable<Tag>::value);\n    std::memcpy(begin(), o.begin(), size_ * sizeof(Tag));")
quiet("growhelper","      if (size() == capacity()) {\n        auto diff = std::distance(begin(), it);\n        reallocate();\n        it = begin() + diff;\n      }","      it = make_room(it);",edits=[["    } else if (size() == capacity()) {\n      reallocate();\n      it = end();\n    }","    } else {\n      it = make_room(it);\n    }"],["  auto reallocate() -> void {","  auto make_room(iterator at) -> iterator {\n    const auto diff = at - begin();\n    if (size() == capacity()) {\n      reallocate();\n    }\n    return begin() + diff;\n  }\n\n  auto reallocate() -> void {"]])
quiet("growfirst","    if (it != end()) {\n      if (it->key == k) {\n        it->value = v;\n        return;\n      }\n\n      if (size() == capacity()) {\n        auto diff = std::distance(begin(), it);\n        reallocate();\n        it = begin() + diff;\n      }\n\n      // move all elements to the right to make room\n      // for the new element at position `it`\n      std::copy_backward(it, end(), end() + 1);\n    } else if (size() == capacity()) {\n      reallocate();\n      it = end();\n    }\n    *it = {k, v};","    if (it != end() && it->key == k) {\n      it->value = v;\n      return;\n    }\n    const auto pos = static_cast<size_type>(it - begin());\n    if (size() == capacity()) {\n      reallocate();\n    }\n    it = begin_ + pos;\n    std::copy_backward(it, begin_ + size_, begin_ + size_ + 1);\n    it->key = k;\n    it->value = v;")
quiet("grow2","    auto capacity_bytes = (c + 4) * sizeof(Tag);","    const auto grown = c * 2;\n    auto capacity_bytes = grown * sizeof(Tag);",edits=[["      U.capacity_ = c + 4;","      U.capacity_ = grown;"],["      U.capacity_ += 4;","      U.capacity_ = grown;"]])
quiet("re-malloc","      begin_ = static_cast<Tag*>(realloc(begin(), capacity_bytes));\n      U.capacity_ += 4;","      auto* grown = static_cast<Tag*>(malloc(capacity_bytes));\n      std::copy(begin(), end(), grown);\n      free(begin_);\n      begin_ = grown;\n      U.capacity_ = c + 4;")
quiet("finder","    const auto* it = std::lower_bound(\n        begin(), end(), key,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });\n    return it != end() && it->key == key;","    const auto* it = find(key);\n    return it != end();",edits=[["    const auto* it = std::lower_bound(\n        begin(), end(), key,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });\n    if (it == end() || it->key != key) {\n      return {};\n    }\n    return it->value;","    const auto* it = find(key);\n    return it == end() ? StrRef{} : it->value;"],[" private:\n  auto insert"," private:\n  [[nodiscard]] auto find(const StrRef& key) const -> const_iterator {\n    const auto* it = std::lower_bound(\n        begin(), end(), key,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });\n    if (it != end() && it->key == key) {\n      return it;\n    }\n    return end();\n  }\n\n  auto insert"]])
quiet("aa-for","    const auto* it = source.begin();\n    while (it != source.end()) {\n      const auto& entry = *it++;\n      insert(entry.key, entry.value);\n    }","    for (const auto& entry : source) {\n      insert(entry.key, entry.value);\n    }")
quiet("aa-idx","    const auto* it = source.begin();\n    while (it != source.end()) {\n      const auto& entry = *it++;\n      insert(entry.key, entry.value);\n    }","    for (size_type i = 0; i < source.size(); ++i) {\n      insert(source.begin_[i].key, source.begin_[i].value);\n    }")
quiet("hash-for","    const auto* it = begin();\n    while (it != end()) {\n      const auto& entry = *it++;\n","    for (const auto& entry : *this) {\n")
quiet("eq-one","    if (size_ != that.size_) {\n      return false;\n    }\n    if (empty()) {\n      return true;\n    }\n","    if (size_ != that.size_) {\n      return false;\n    }\n")
quiet("eq-loop","    const auto& mine = begin();\n    const auto& theirs = that.begin();\n    return memcmp(mine, theirs, sizeof(Tag) * size()) == 0;","    for (size_type i = 0; i < size_; ++i) {\n      if (begin_[i].key != that.begin_[i].key || begin_[i].value != that.begin_[i].value) {\n        return false;\n      }\n    }\n    return true;")
quiet("eq-std","    const auto& mine = begin();\n    const auto& theirs = that.begin();\n    return memcmp(mine, theirs, sizeof(Tag) * size()) == 0;","    return std::equal(begin(), end(), that.begin(), [](const Tag& a, const Tag& b) { return a.key == b.key && a.value == b.value; });")
quiet("release","    if (is_large()) {\n      free(begin_);\n    }\n    size_ = o.size_;\n    if (is_large()) {\n      begin_ = o.begin_;\n      o.begin_ = nullptr;\n      U.capacity_ = o.U.capacity_;\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy(o.begin(), o.end(), begin());\n    }\n    return *this;","    release();\n    size_ = o.size_;\n    take(o);\n    return *this;",edits=[["  ~Tags() noexcept {\n    if (is_large()) {\n      free(begin_);\n    }\n  }","  ~Tags() noexcept { release(); }"],[" private:\n  auto insert"," private:\n  void release() noexcept {\n    if (!is_large()) {\n      return;\n    }\n    free(begin_);\n  }\n  void take(Tags& o) noexcept {\n    if (is_large()) {\n      U.capacity_ = o.U.capacity_;\n      begin_ = o.begin_;\n    o.begin_ = nullptr;\n      return;\n    }\n    begin_ = U.entries_.data();\n    std::copy(o.begin(), o.end(), begin_);\n  }\n\n  auto insert"]])
quiet("resetsrc","      o.begin_ = nullptr;\n      U.capacity_ = o.U.capacity_;\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy(o.begin(), o.end(), begin());\n    }\n  }\n\n  Tags(const","      U.capacity_ = o.U.capacity_;\n      o.size_ = 0;\n      o.begin_ = &o.U.entries_[0];\n    } else {\n      begin_ = &U.entries_[0];\n      std::copy(o.begin(), o.end(), begin());\n    }\n  }\n\n  Tags(const")
quiet("complam","  auto insert(StrRef k, StrRef v) -> void {\n    auto* it = std::lower_bound(\n        begin(), end(), k,\n        [](const Tag& tag, const StrRef& k) { return tag.key < k; });","  auto insert(StrRef k, StrRef v) -> void {\n    const auto by_key = [](const Tag& entry, const StrRef& wanted) {\n      return entry.key < wanted;\n    };\n    auto* it = std::lower_bound(begin(), end(), k, by_key);")
B=[b for b in B if b]
json.dump(B,open("/tmp/p09.json","w"))
