F='include/maec/utils.hpp'
MUTS=[
('bug','add at front',[(F,'this->objs.push_back(std::move(ptr));','this->objs.insert(this->objs.begin(), std::move(ptr));')]),
('bug','add keeps pointer',[(F,'this->objs.push_back(std::move(ptr));','this->objs.push_back(std::unique_ptr<T>(ptr.get()));')]),
('bug','skip duplicates slot',[(F,'this->objs.push_back(std::move(ptr));','if (!this->objs.empty() && !this->objs.back()) { this->objs.back() = std::move(ptr); return; }\n        this->objs.push_back(std::move(ptr));')]),
('bug','unchecked get',[(F,'this->objs.at(index).get()','this->objs[index].get()')]),
('bug','release keeps ownership',[(F,'return this->objs.at(index).release();','return this->objs.at(index).get();')]),
('bug','release removes place',[(F,'return this->objs.at(index).release();','T *r = this->objs.at(index).release();\n        this->objs.erase(this->objs.begin() + index);\n        return r;')]),
('bug','free leaves place',[(F,'this->objs.erase(this->objs.begin() + index);','this->objs[index].reset();')]),
('bug','free swaps with last',[(F,'this->objs.erase(this->objs.begin() + index);','std::swap(this->objs[index], this->objs.back());\n        this->objs.pop_back();')]),
('bug','clear releases',[(F,'this->objs.clear();','for (auto& o : this->objs) { o.release(); }\n        this->objs.clear();')]),
('bug','clear keeps last',[(F,'this->objs.clear();','this->objs.resize(this->objs.size() > 1 ? 0 : this->objs.size() * 0);\n        if (this->objs.capacity() > 8) { return; }').__class__((F,'void clear() { this->objs.clear(); }','void clear() { while (this->objs.size() > 4) { this->objs.pop_back(); }\n            if (this->objs.size() <= 3) { this->objs.clear(); } }'))]),
('bug','num counts held',[(F,'return this->objs.size();','int n = 0;\n        for (const auto& o : this->objs) { n += o != nullptr; }\n        return n;')]),
('same','emplace',[(F,'this->objs.push_back(std::move(ptr));','this->objs.emplace_back(ptr.release());')]),
('same','free by shifting',[(F,'this->objs.erase(this->objs.begin() + index);','for (std::size_t i = index; i + 1 < this->objs.size(); ++i) { this->objs[i] = std::move(this->objs[i + 1]); }\n        this->objs.pop_back();')]),
('same','clear by swap',[(F,'this->objs.clear();','std::vector<std::unique_ptr<T>> old;\n        old.swap(this->objs);')]),
('same','release by swap',[(F,'return this->objs.at(index).release();','std::unique_ptr<T> r;\n        r.swap(this->objs.at(index));\n        return r.release();')]),
]
