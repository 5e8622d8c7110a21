FI = 'cpp_utils/include/cpp_utils/types/impl/Fuzzy.ipp'
FH = 'cpp_utils/include/cpp_utils/types/Fuzzy.hpp'
TS = 'cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp'
RM = 'cpp_utils/src/cpp/math/random/RandomManager.cpp'
TC = 'cpp_utils/src/cpp/time/Timer.cpp'
PC = 'cpp_utils/src/cpp/time/PausableTimer.cpp'
EQ = '''    if (!this->is_set() && !other.is_set())
    {
        return true;
    }
    else
    {
        return this->fuzzy_level_ == other.fuzzy_level_ && this->value_ == other.get_reference();
    }
'''
SW = '''            fuzzy_level = "UNSET";
            break;
'''
M = [
 # Fuzzy
 ('eq ignores level', ['F01'], 'caught', [(FI, 'this->fuzzy_level_ == other.fuzzy_level_ && ', '')]),
 ('eq uses valid', ['F01'], 'caught', [(FI, '!this->is_set() && !other', '!this->is_valid() && !other')]),
 ('eq or', ['F01'], 'caught', [(FI, '!this->is_set() && !other', '!this->is_set() || !other')]),
 ('valid strict', ['F01'], 'caught', [(FI, 'fuzzy_level_ >= FuzzyLevelValues::fuzzy_level_default', 'fuzzy_level_ > FuzzyLevelValues::fuzzy_level_default')]),
 ('set eq', ['F01'], 'caught', [(FI, 'fuzzy_level_ >= FuzzyLevelValues::fuzzy_level_fuzzy', 'fuzzy_level_ > FuzzyLevelValues::fuzzy_level_default')]),
 ('default arg', ['F01'], 'caught', [(FH, '''            FuzzyLevelType level = FuzzyLevelValues::fuzzy_level_set);

    /**
     * @brief Construct a new Fuzzy object moving''', '''            FuzzyLevelType level = FuzzyLevelValues::fuzzy_level_hard);

    /**
     * @brief Construct a new Fuzzy object moving''')]),
 ('unset default', ['F01'], 'caught', [(FI, 'fuzzy_level_ = FuzzyLevelValues::fuzzy_level_unset', 'fuzzy_level_ = FuzzyLevelValues::fuzzy_level_default')]),
 ('string fallthrough', ['F01'], 'caught', [(FI, SW, '            fuzzy_level = "UNSET";\n')]),
 ('level not stored if lower', ['F01'], 'caught', [(FI, '    value_ = new_value;\n    fuzzy_level_ = level;', '    if (level >= fuzzy_level_)\n    {\n        value_ = new_value;\n    }\n    fuzzy_level_ = level;')]),
 ('eq value when not valid', ['F01'], 'caught', [(FI, '''    if (!this->is_valid())
    {
        return false;
    }''', '''    if (!this->is_valid())
    {
        return other == T();
    }''')]),
 ('enum const', ['F01'], 'caught', [(FH, 'fuzzy_level_fuzzy = 20', 'fuzzy_level_fuzzy = 10')]),
 ('initial level', ['F01'], 'caught', [(FH, 'FuzzyLevelType fuzzy_level_ = FuzzyLevelValues::fuzzy_level_default', 'FuzzyLevelType fuzzy_level_ = FuzzyLevelValues::fuzzy_level_unset')]),
 ('r eq flat', ['F01'], 'quiet', [(FI, EQ, '''    const bool any_set = this->is_set() || other.is_set();
    return !any_set || (get_level() == other.get_level() && other.value_ == this->value_);
''')]),
 ('r helper', ['F01'], 'quiet', [(FH, '''protected:
''', '''protected:

    bool at_least_(
            FuzzyLevelType l) const noexcept
    {
        return !(fuzzy_level_ < l);
    }

'''), (FI, 'return fuzzy_level_ >= FuzzyLevelValues::fuzzy_level_default', 'return at_least_(FuzzyLevelValues::fuzzy_level_default)'),
  (FI, 'return fuzzy_level_ >= FuzzyLevelValues::fuzzy_level_fuzzy', 'return at_least_(FuzzyLevelValues::fuzzy_level_fuzzy)')]),
 ('r switch returns', ['F01'], 'quiet', [(FI, SW, '            return "UNSET";\n'), (FI, '''            // TODO: error?
            break;''', '            return std::string();')]),
 ('r neq', ['F01'], 'quiet', [(FI, 'return !(this->operator ==(other));', 'return !(*this == other);'), (FI, 'return !(this->operator ==(other));', 'const bool e = operator ==(other); return e ? false : true;')]),
 ('r level string ifs', ['F01'], 'quiet', [(FI, '    switch (fuzzy_level_)\n', '    const auto level = get_level();\n    if (level == 20)\n    {\n        return "FUZZY";\n    }\n    switch (level)\n')]),
 ('r set_value order', ['F01'], 'quiet', [(FI, '    value_ = new_value;\n    fuzzy_level_ = level;', '    set_level(level);\n    value_ = new_value;')]),
 # random
 ('seeded uses seq', ['R01'], 'caught', [(TS, 'seed_random_generator_.seed(seed);\n    return seed_random_generator_();', 'std_random_generator_.seed(seed);\n    return std_random_generator_();')]),
 ('seeded two sections', ['R01'], 'caught', [(TS, '''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return''', '''    {
        std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
        seed_random_generator_.seed(seed);
    }
    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    return''')]),
 ('seeded wrong lock', ['R01'], 'caught', [(TS, 'guard(seed_random_generator_)', 'guard(std_random_generator_)')]),
 ('seq unlocked', ['R01'], 'caught', [(TS, '    std::lock_guard<Atomicable<std::mt19937>> guard(std_random_generator_);\n    return', '    return')]),
 ('seq skips first', ['R01'], 'caught', [(TS, 'guard(std_random_generator_);\n    return', 'guard(std_random_generator_);\n    std_random_generator_();\n    return')]),
 ('seed cached', ['R01'], 'caught', [(TS, '    std_random_generator_.seed(seed);', '    static RandomSeedType last = 0;\n    if (seed != last)\n    {\n        last = seed;\n        std_random_generator_.seed(seed);\n    }')]),
 ('seeded cached', ['R01'], 'caught', [(RM, '    seed_random_generator_.seed(seed);', '    static RandomSeedType last = 0;\n    if (seed != last)\n    {\n        last = seed;\n        seed_random_generator_.seed(seed);\n    }')]),
 ('rand seq', ['R01'], 'caught', [(TS, 'return seeded_rand(seed);', 'this->seed(seed);\n    return sequence_rand();')]),
 ('ctor ignores seed', ['R01'], 'caught', [(TS, ': std_random_generator_(original_seed)', ': std_random_generator_(1)')]),
 ('pure consumes', ['R01'], 'caught', [(TS, 'return pure_random_generator_();', 'return sequence_rand();')]),
 ('seed xor', ['R01'], 'caught', [(RM, 'std_random_generator_.seed(seed);', 'std_random_generator_.seed(seed + 1);')]),
 ('r local engine', ['R01'], 'quiet', [(RM, '    seed_random_generator_.seed(seed);\n    return seed_random_generator_();', '    std::mt19937 generator(seed);\n    return generator();')]),
 ('r unique lock', ['R01'], 'quiet', [(TS, '''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return seed_random_generator_();''', '''    std::unique_lock<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    const RandomNumberType result = seed_random_generator_();
    guard.unlock();
    return result;''')]),
 # timers
 ('pause forgets', ['K01'], 'caught', [(PC, 'stored_time_elapsed_ += Timer::elapsed();', 'stored_time_elapsed_ = Timer::elapsed();')]),
 ('pause virtual', ['K01'], 'caught', [(PC, 'stored_time_elapsed_ += Timer::elapsed();', 'stored_time_elapsed_ += elapsed();')]),
 ('play resets always', ['K01'], 'caught', [(PC, '    if (!playing_)\n    {\n        reset_();\n        playing_ = true;', '    reset_();\n    if (!playing_)\n    {\n        playing_ = true;')]),
 ('play virtual reset', ['K01'], 'caught', [(PC, '        reset_();\n        playing_ = true;', '        reset();\n        playing_ = true;')]),
 ('play no reset', ['K01'], 'caught', [(PC, '        reset_();\n        playing_ = true;', '        playing_ = true;')]),
 ('reset keeps stored', ['K01'], 'caught', [(PC, '    stored_time_elapsed_ = 0;\n    reset_', '    reset_')]),
 ('reset pauses', ['K01'], 'caught', [(PC, '    stored_time_elapsed_ = 0;\n    reset_', '    playing_ = false;\n    stored_time_elapsed_ = 0;\n    reset_')]),
 ('pause int', ['K01'], 'caught', [(PC, 'stored_time_elapsed_ += Timer::elapsed();', 'stored_time_elapsed_ += Timer::elapsed_ms();')]),
 ('trunc ms', ['K01'], 'caught', [(TC, 'std::chrono::duration<double, std::milli>(std::chrono::high_resolution_clock::now() - start_time_).count()', 'static_cast<double>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now() - start_time_).count())')]),
 ('micro', ['K01'], 'caught', [(TC, 'std::milli', 'std::micro')]),
 ('reset no start when paused/playing', ['K01'], 'caught', [(PC, '    stored_time_elapsed_ = 0;\n    reset_();', '    stored_time_elapsed_ = 0;\n    if (!playing_)\n    {\n        reset_();\n    }')]),
 ('elapsed paused running', ['K01'], 'caught', [(PC, '    if (!playing_)\n    {\n        return stored_time_elapsed_;\n    }', '    if (!playing_ && stored_time_elapsed_ > 0)\n    {\n        return stored_time_elapsed_;\n    }')]),
 ('r elapsed', ['K01'], 'quiet', [(PC, '''    if (!playing_)
    {
        return stored_time_elapsed_;
    }
    else
    {
        // Otherwise, return the amount of data elapsed since the object was created
        return stored_time_elapsed_ + Timer::elapsed();
    }''', '''    double total = stored_time_elapsed_;
    if (playing())
    {
        total += Timer::elapsed();
    }
    return total;''')]),
 ('r early return', ['K01'], 'quiet', [(PC, '    if (playing_)\n    {\n        stored_time_elapsed_ += Timer::elapsed();\n        reset_();\n        playing_ = false;\n    }', '    if (!playing_)\n    {\n        return;\n    }\n    stored_time_elapsed_ = elapsed();\n    playing_ = false;\n')]),
 ('r timer ns', ['K01'], 'quiet', [(TC, 'return std::chrono::duration<double, std::milli>(std::chrono::high_resolution_clock::now() - start_time_).count();', 'const auto now = std::chrono::high_resolution_clock::now();\n    const std::chrono::duration<double, std::milli> diff = now - start_time_;\n    return diff.count();')]),
 ('r timer ns2', ['K01'], 'quiet', [(TC, 'return std::chrono::duration<double, std::milli>(std::chrono::high_resolution_clock::now() - start_time_).count();', 'return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now() - start_time_).count() / 1000000.0;')]),
]
