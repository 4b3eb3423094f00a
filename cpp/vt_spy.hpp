// Policies that record every call the library makes to them, in order.
#pragma once
#include <string>
#define VT_TRACE 1
namespace vt
{
inline thread_local std::string trace;
}
#include "vt_main.hpp"

namespace vt
{
/** Who is being called: the owning node and how many ancestors it was given. */
template <typename Policy, typename... Parents>
std::string who()
{
    if constexpr (sizeof...(Parents) > 0) {
        using node_type = boost::mp11::mp_first<std::tuple<Parents...>>;
        if (std::is_base_of_v<Policy, node_type>) {
            return std::to_string(sizeof...(Parents));
        }
    }
    return "0";
}

template <typename T>
std::string shown(const T& v)
{
    auto s = std::string{};
    put(s, v);
    return s;
}

constexpr auto refused_first = static_cast<error_code>(1001);
constexpr auto refused_second = static_cast<error_code>(1002);

template <typename T>
bool holds(const T& v, int x)
{
    if constexpr (std::is_same_v<T, std::int32_t>) {
        return v == x;
    } else if constexpr (std::is_same_v<T, std::uint32_t>) {
        return v == static_cast<std::uint32_t>(x);
    } else if constexpr (is_vec<T>::value) {
        for (const auto& e : v) {
            if (holds(e, x)) {
                return true;
            }
        }
    }
    return false;
}

/** Records pre-parse calls as p<id>@<ancestors>.  Several templates, as a node accepts each only once. */
#define VT_SPY_PRE(NAME, PRIORITY)                                                                       \
    template <typename Id>                                                                               \
    struct NAME {                                                                                        \
        constexpr static auto priority = static_cast<std::size_t>(PRIORITY);                             \
        template <typename ProcessedTarget, typename... Parents>                                         \
        [[nodiscard]] parsing::pre_parse_result pre_parse_phase(                                         \
            parsing::dynamic_token_adapter&,                                                             \
            utility::compile_time_optional<ProcessedTarget>,                                             \
            parsing::parse_target&,                                                                      \
            const Parents&...) const                                                                     \
        {                                                                                                \
            trace += "p" + std::to_string(Id::value) + "@" + who<std::decay_t<decltype(*this)>, Parents...>() + " ";                    \
            return parsing::pre_parse_action::valid_node;                                                \
        }                                                                                                \
    };
VT_SPY_PRE(spy_pre_low, 50)
VT_SPY_PRE(spy_pre_high, 990)
VT_SPY_PRE(spy_pre_mid, 790)

/** Records validation calls as v<id>@<ancestors>=<value>; refuses some values. */
#define VT_SPY_VAL(NAME, PRIORITY, CODE)                                                                 \
    template <typename Id>                                                                               \
    struct NAME {                                                                                        \
        constexpr static auto priority = static_cast<std::size_t>(PRIORITY);                             \
        template <typename ValueType, typename... Parents>                                               \
        void validation_phase(const ValueType& value, const Parents&...) const                           \
        {                                                                                                \
            trace += "v" + std::to_string(Id::value) + "@" + who<std::decay_t<decltype(*this)>, Parents...>() + "=" + shown(value) + " "; \
            if constexpr (sizeof...(Parents) > 0) {                                                      \
                if (holds(value, 13) || (CODE == 1002 && holds(value, 26))) {                            \
                    using node_type = boost::mp11::mp_first<std::tuple<Parents...>>;                     \
                    throw multi_lang_exception{static_cast<error_code>(CODE),                            \
                                               parsing::node_token_type<node_type>()};                   \
                }                                                                                        \
            }                                                                                            \
        }                                                                                                \
    };
VT_SPY_VAL(spy_val_low, 20, 1002)
VT_SPY_VAL(spy_val_high, 300, 1001)

/** Records missing calls as m<id>@<ancestors> and supplies a value. */
template <typename Id, typename T>
struct spy_missing {
    T value;

    template <typename ValueType, typename... Parents>
    [[nodiscard]] ValueType missing_phase(const Parents&...) const
    {
        trace += "m" + std::to_string(Id::value) + "@" + who<std::decay_t<decltype(*this)>, Parents...>() + " ";
        return value;
    }
};

/** Records conversions as c<id>@<ancestors>=<token>. */
template <typename Id, typename T>
struct spy_parse {
    template <typename ValueType, typename... Parents>
    [[nodiscard]] T parse_phase(std::string_view token, const Parents&...) const
    {
        trace += "c" + std::to_string(Id::value) + "@" + who<std::decay_t<decltype(*this)>, Parents...>() + "=" + hex(token) + " ";
        return parser<T>::parse(token);
    }
};
}  // namespace vt

template <typename... T>
struct arg_router::policy::is_policy<vt::spy_pre_low<T...>> : std::true_type {};
template <typename... T>
struct arg_router::policy::is_policy<vt::spy_pre_high<T...>> : std::true_type {};
template <typename... T>
struct arg_router::policy::is_policy<vt::spy_pre_mid<T...>> : std::true_type {};
template <typename... T>
struct arg_router::policy::is_policy<vt::spy_val_low<T...>> : std::true_type {};
template <typename... T>
struct arg_router::policy::is_policy<vt::spy_val_high<T...>> : std::true_type {};
template <typename... T>
struct arg_router::policy::is_policy<vt::spy_missing<T...>> : std::true_type {};
template <typename... T>
struct arg_router::policy::is_policy<vt::spy_parse<T...>> : std::true_type {};
