#pragma once
#include <atomic>
#include <memory>
#include <string>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Singleton.hpp>

// One object seen from two files of the program
struct Shared
{
    int v = 5;
    Shared() = default;
    explicit Shared(int k) : v(k) {}
};
namespace other {
Shared* plain();
Shared* init();
Shared* safe();
std::shared_ptr<Shared> safe_shared(bool create);
}
