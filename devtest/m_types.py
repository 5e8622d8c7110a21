BI = 'cpp_utils/include/cpp_utils/types/impl/Builder.ipp'
EB = 'cpp_utils/include/cpp_utils/enum/impl/EnumBuilder.ipp'
LOOP = '''    for (const auto& it : values_to_keys)
    {
        for (const auto& k : it.second)
        {
            result[k] = it.first;
        }
    }
'''
ST = '            result[k] = it.first;\n'
FD = '''    auto it = values_.find(key);
    if (it != values_.end())
    {
        return_value = it->second;
        return true;
    }
    else
    {
        return false;
    }
'''
M = [
 ('first key only', ['B01'], 'caught', [(BI, ST, ST + '            break;\n')]),
 ('first value only', ['B01'], 'caught', [(BI, LOOP, LOOP.replace('        }\n    }\n', '        }\n        if (result.size() > 10)\n        {\n            break;\n        }\n    }\n'))]),
 ('skip empty', ['B01'], 'caught', [(BI, LOOP, LOOP.replace('            result[k]', '            if (k == Key())\n            {\n                continue;\n            }\n            result[k]'))]),
 ('merge', ['B01'], 'caught', [(BI, 'values_ = indexed_map_from_values_to_keys_(values_to_keys);', 'for (const auto& it : indexed_map_from_values_to_keys_(values_to_keys))\n    {\n        values_[it.first] = it.second;\n    }')]),
 ('in place', ['B01'], 'caught', [(BI, 'values_ = indexed_map_from_values_to_keys_(values_to_keys);', LOOP.replace('result', 'values_'))]),
 ('no overwrite', ['B01'], 'caught', [(BI, 'values_ = keys_to_values;', 'values_.insert(keys_to_values.begin(), keys_to_values.end());')]),
 ('only if not empty', ['B01'], 'caught', [(BI, 'values_ = keys_to_values;', 'if (!keys_to_values.empty())\n    {\n        values_ = keys_to_values;\n    }')]),
 ('lower bound', ['B01'], 'caught', [(BI, 'values_.find(key);', 'values_.lower_bound(key);')]),
 ('default out', ['B01'], 'caught', [(BI, '    else\n    {\n        return false;', '    else\n    {\n        return_value = Value();\n        return false;')]),
 ('return anyway', ['B01'], 'caught', [(BI, '    if (find(key, value))\n', '    if (find(key, value) || values_.empty())\n')]),
 ('other exc', ['B01'], 'caught', [(BI, 'throw ValueNotAllowedException', 'throw Exception')]),
 ('enum swallow', ['B01'], 'caught', [(EB, 'return Builder<std::string, E>::find(enum_str, enum_value);', 'Builder<std::string, E>::find(enum_str, enum_value);\n    return true;')]),
 ('r emplace', ['B01'], 'quiet', [(BI, ST, '            result.emplace(k, it.first);\n')]),
 ('r insert pair', ['B01'], 'quiet', [(BI, ST, '            result.insert(std::make_pair(k, it.first));\n')]),
 ('r insert brace', ['B01'], 'quiet', [(BI, ST, '            result.insert({k, it.first});\n')]),
 ('r insert_or_assign', ['B01'], 'quiet', [(BI, ST, '            result.insert_or_assign(k, it.first);\n')]),
 ('r binding', ['B01'], 'quiet', [(BI, LOOP, '''    for (const auto& [value, keys] : values_to_keys)
    {
        for (const auto& key : keys)
        {
            result[key] = value;
        }
    }
''')]),
 ('r iterators', ['B01'], 'quiet', [(BI, LOOP, '''    for (auto it = values_to_keys.begin(); it != values_to_keys.end(); ++it)
    {
        for (auto k = it->second.begin(); k != it->second.end(); ++k)
        {
            result[*k] = it->first;
        }
    }
''')]),
 ('r iterators while', ['B01'], 'quiet', [(BI, LOOP, '''    auto it = values_to_keys.cbegin();
    while (it != values_to_keys.cend())
    {
        const Value& value = it->first;
        for (const Key& k : it->second)
        {
            result[k] = value;
        }
        it++;
    }
''')]),
 ('r in place', ['B01'], 'quiet', [(BI, 'values_ = indexed_map_from_values_to_keys_(values_to_keys);', 'values_.clear();\n' + LOOP.replace('result', 'values_'))]),
 ('r move', ['B01'], 'quiet', [(BI, 'values_ = indexed_map_from_values_to_keys_(values_to_keys);', 'auto fresh = indexed_map_from_values_to_keys_(values_to_keys);\n    values_.swap(fresh);')]),
 ('r move2', ['B01'], 'quiet', [(BI, 'values_ = indexed_map_from_values_to_keys_(values_to_keys);', 'std::map<Key, Value> fresh = indexed_map_from_values_to_keys_(values_to_keys);\n    values_ = std::move(fresh);')]),
 ('r find early', ['B01'], 'quiet', [(BI, FD, '''    const auto it = values_.find(key);
    const bool found = it != values_.end();
    if (found)
    {
        return_value = (*it).second;
    }
    return found;
''')]),
 ('r find count', ['B01'], 'quiet', [(BI, FD, '''    if (values_.count(key) == 0)
    {
        return false;
    }
    return_value = values_.at(key);
    return true;
''')]),
 ('r find throw first', ['B01'], 'quiet', [(BI, '    Value value;\n    if (find(key, value))\n    {\n        return value;\n    }\n    else\n    {', '    Value value;\n    if (find(key, value))\n    {\n        return value;\n    }\n    {')]),
]
SA = 'cpp_utils/include/cpp_utils/types/impl/SafeInitializableSingleton.ipp'
SN = 'cpp_utils/include/cpp_utils/types/impl/Singleton.ipp'
SZ = 'cpp_utils/include/cpp_utils/types/impl/InitializableSingleton.ipp'
G = '''    std::lock_guard<std::mutex> _(mtx_);

    if (the_ptr_ || !create)
    {
        return the_ptr_;
    }
    else
    {
        initialize_nts_();
        return the_ptr_;
    }
'''
M += [
 ('s unlocked init', ['S01'], 'caught', [(SA, '    std::lock_guard<std::mutex> _(mtx_);\n    return initialize_nts_', '    return initialize_nts_')]),
 ('s check outside', ['S01'], 'caught', [(SA, G, G.replace('    std::lock_guard<std::mutex> _(mtx_);\n\n', '').replace('        initialize_nts_();\n', '        std::lock_guard<std::mutex> _(mtx_);\n        initialize_nts_();\n'))]),
 ('s replace', ['S01'], 'caught', [(SA, '    if (!the_ptr_)\n', '    if (!the_ptr_ || the_ptr_.use_count() == 1)\n')]),
 ('s return true', ['S01'], 'caught', [(SA, '        return false;', '        return true;')]),
 ('s create default', ['S01'], 'caught', [(SA, 'if (the_ptr_ || !create)', 'if (the_ptr_ && !create)')]),
 ('s create ignored', ['S01'], 'caught', [(SA, 'if (the_ptr_ || !create)', 'if (the_ptr_)')]),
 ('s two sections', ['S01'], 'caught', [(SA, '''    std::lock_guard<std::mutex> _(mtx_);
    return initialize_nts_(std::forward<Args>(args) ...);''', '''    {
        std::lock_guard<std::mutex> _(mtx_);
        if (the_ptr_)
        {
            return false;
        }
    }
    auto fresh = std::shared_ptr<T>(new T(std::forward<Args>(args)...));
    std::lock_guard<std::mutex> _(mtx_);
    the_ptr_ = fresh;
    return true;''')]),
 ('s local mutex', ['S01'], 'caught', [(SA, G, G.replace('    std::lock', '    std::mutex mtx_;\n    std::lock'))]),
 ('s tls', ['S01'], 'caught', [(SN, '    static std::shared_ptr<T> instance_', '    static thread_local std::shared_ptr<T> instance_')]),
 ('s two statics', ['S01'], 'caught', [(SN, 'return get_shared_instance().get();', 'static T instance;\n    return &instance;')]),
 ('s keep', ['S01'], 'caught', [(SZ, '    the_ptr_ = std::shared', '    if (!the_ptr_)\n    the_ptr_ = std::shared')]),
 ('r s flat', ['S01'], 'quiet', [(SA, G, '''    std::unique_lock<std::mutex> lock(mtx_);

    if (create)
    {
        initialize_nts_();
    }
    return the_ptr_;
''')]),
 ('r s make_shared', ['S01'], 'quiet', [(SA, 'std::shared_ptr<T>(new T(std::forward<Args>(args)...))', 'std::make_shared<T>(std::forward<Args>(args)...)')]),
 ('r s early', ['S01'], 'quiet', [(SA, '''    if (!the_ptr_)
    {
        the_ptr_ = std::shared_ptr<T>(new T(std::forward<Args>(args)...));
        return true;
    }
    else
    {
        return false;
    }''', '''    if (the_ptr_ != nullptr)
    {
        return false;
    }
    the_ptr_.reset(new T(std::forward<Args>(args)...));
    return true;''')]),
 ('r s get', ['S01'], 'quiet', [(SA, 'return get_shared_instance(create).get();', 'const std::shared_ptr<T> instance = get_shared_instance(create);\n    return instance.get();')]),
 ('r s static', ['S01'], 'quiet', [(SN, 'static std::shared_ptr<T> instance_(new T());', 'static const std::shared_ptr<T> instance_ = std::make_shared<T>();')]),
 ('r z', ['S01'], 'quiet', [(SZ, 'the_ptr_ = std::shared_ptr<T>(new T(std::forward<Args>(args)...));', 'std::shared_ptr<T> fresh(new T(std::forward<Args>(args)...));\n    the_ptr_ = fresh;')]),
 ('r z move', ['S01'], 'quiet', [(SZ, 'the_ptr_ = std::shared_ptr<T>(new T(std::forward<Args>(args)...));', 'auto fresh = std::make_shared<T>(std::forward<Args>(args)...);\n    the_ptr_.swap(fresh);')]),
]
