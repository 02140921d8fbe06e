#include "p16_common.hpp"
using namespace eprosima::utils;
namespace other {
Shared* plain() { return Singleton<Shared, 3>::get_instance(); }
Shared* init() { return InitializableSingleton<Shared, 3>::get_instance(); }
Shared* safe() { return SafeInitializableSingleton<Shared, 3>::get_instance(); }
std::shared_ptr<Shared> safe_shared(bool create) { return SafeInitializableSingleton<Shared, 3>::get_shared_instance(create); }
}
