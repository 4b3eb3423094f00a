// Policies, nodes, a help formatter and a validator written by a user of the library from the documented interface (docs:
// "Defining a Policy", "Nodes", the custom_policy_and_node example): none of them is one of the library's own types.
#pragma once
#include "arg_router/arg_router.hpp"

namespace vtu
{
namespace ar = arg_router;
namespace arp = ar::policy;

// ---------------------------------------------------------------- static data providers
#define VTU_TEXT(NAME)                                                                        \
    template <typename S>                                                                     \
    class NAME##_t                                                                            \
    {                                                                                         \
    public:                                                                                   \
        using string_type = S;                                                                \
        constexpr explicit NAME##_t(S = {}) noexcept {}                                       \
        [[nodiscard]] constexpr static std::string_view NAME() noexcept { return S::get(); } \
    };
VTU_TEXT(long_name)
VTU_TEXT(short_name)
VTU_TEXT(none_name)
VTU_TEXT(display_name)
VTU_TEXT(description)
VTU_TEXT(error_name)
#undef VTU_TEXT

// ---------------------------------------------------------------- missing phase
template <typename = void>
class required_t
{
public:
    template <typename ValueType, typename... Parents>
    [[noreturn]] ValueType missing_phase(const Parents&...) const
    {
        using Node = boost::mp11::mp_first<std::tuple<Parents...>>;
        throw ar::multi_lang_exception{ar::error_code::missing_required_argument, ar::parsing::node_token_type<Node>()};
    }
};
constexpr auto required = required_t<>{};

template <typename T>
class default_value
{
public:
    constexpr explicit default_value(T v) noexcept : value_{std::move(v)} {}
    template <typename ValueType, typename... Parents>
    [[nodiscard]] ValueType missing_phase(const Parents&...) const
    {
        return value_;
    }

private:
    T value_;
};

// ---------------------------------------------------------------- pre-parse phase
template <typename Min, typename Max>
class count_t
{
public:
    constexpr static auto priority = std::size_t{750};

    [[nodiscard]] constexpr static std::size_t minimum_count() noexcept { return Min::value; }
    [[nodiscard]] constexpr static std::size_t maximum_count() noexcept { return Max::value; }

    template <typename ProcessedTarget, typename... Parents>
    [[nodiscard]] ar::parsing::pre_parse_result pre_parse_phase(ar::parsing::dynamic_token_adapter& tokens,
                                                                ar::utility::compile_time_optional<ProcessedTarget>,
                                                                ar::parsing::parse_target&,
                                                                const Parents&...) const
    {
        using Node = boost::mp11::mp_first<std::tuple<Parents...>>;
        constexpr auto label = std::size_t{Node::is_named ? 1 : 0};
        auto available = tokens.size();
        if constexpr (ar::traits::has_token_end_marker_method_v<Node>) {
            available = tokens.processed().size();
            if (available > label && available - label > maximum_count()) {
                return ar::multi_lang_exception{ar::error_code::maximum_count_exceeded,
                                                ar::parsing::node_token_type<Node>()};
            }
        }
        if (available < label || available - label < minimum_count()) {
            return ar::multi_lang_exception{ar::error_code::minimum_count_not_reached,
                                            ar::parsing::node_token_type<Node>()};
        }
        const auto take = label + std::min(available - label, maximum_count());
        if (take > 0) {
            tokens.transfer(tokens.begin() + (take - 1));
        }
        return ar::parsing::pre_parse_action::valid_node;
    }
};
template <auto V>
using size_constant = ar::traits::integral_constant<static_cast<std::size_t>(V)>;
constexpr auto unlimited = std::numeric_limits<std::size_t>::max();
template <std::size_t N>
constexpr auto fixed_count = count_t<size_constant<N>, size_constant<N>>{};
template <std::size_t N>
constexpr auto min_count = count_t<size_constant<N>, size_constant<unlimited>>{};
template <std::size_t N>
constexpr auto max_count = count_t<size_constant<0>, size_constant<N>>{};
template <std::size_t N, std::size_t M>
constexpr auto min_max_count = count_t<size_constant<N>, size_constant<M>>{};

template <typename S>
class value_separator_t
{
public:
    constexpr static auto priority = std::size_t{1000};

    constexpr explicit value_separator_t(S = {}) noexcept {}
    [[nodiscard]] constexpr static std::string_view value_separator() noexcept { return S::get(); }

    template <typename ProcessedTarget, typename... Parents>
    [[nodiscard]] ar::parsing::pre_parse_result pre_parse_phase(ar::parsing::dynamic_token_adapter& tokens,
                                                                ar::utility::compile_time_optional<ProcessedTarget>,
                                                                ar::parsing::parse_target&,
                                                                const Parents&... parents) const
    {
        using Node = boost::mp11::mp_first<std::tuple<Parents...>>;
        const Node& node = std::get<0>(std::tie(parents...));
        if (tokens.empty()) {
            return ar::parsing::pre_parse_action::valid_node;
        }
        auto front = tokens.begin();
        const auto token = *front;
        const auto at = token.name.find(S::get());
        if (at == std::string_view::npos) {
            const auto label = token.prefix == ar::parsing::prefix_type::none ?
                                   ar::parsing::get_token_type(node, token.name) :
                                   token;
            if (ar::parsing::match<Node>(label)) {
                return ar::multi_lang_exception{ar::error_code::missing_value_separator,
                                                ar::parsing::node_token_type<Node>()};
            }
            return ar::parsing::pre_parse_action::skip_node;
        }
        const auto value = token.name.substr(at + S::get().size());
        if (value.empty()) {
            return ar::parsing::pre_parse_action::skip_node;
        }
        tokens.insert(front + 1, ar::parsing::token_type{ar::parsing::prefix_type::none, value});
        tokens.begin().set({token.prefix, token.name.substr(0, at)});
        return ar::parsing::pre_parse_action::valid_node;
    }
};

template <typename S>
class token_end_marker_t
{
public:
    constexpr static auto priority = std::size_t{760};

    constexpr explicit token_end_marker_t(S = {}) noexcept {}
    [[nodiscard]] constexpr static std::string_view token_end_marker() noexcept { return S::get(); }

    template <typename ProcessedTarget, typename... Parents>
    [[nodiscard]] ar::parsing::pre_parse_result pre_parse_phase(ar::parsing::dynamic_token_adapter& tokens,
                                                                ar::utility::compile_time_optional<ProcessedTarget>,
                                                                ar::parsing::parse_target&,
                                                                const Parents&...) const
    {
        using Node = boost::mp11::mp_first<std::tuple<Parents...>>;
        auto it = tokens.begin() + (Node::is_named ? 1 : 0);
        while (it != tokens.end() && it->name != S::get()) {
            ++it;
        }
        tokens.transfer(it);
        tokens.erase(it);
        return ar::parsing::pre_parse_action::valid_node;
    }
};

template <typename = void>
class runtime_enable
{
public:
    constexpr static auto priority = std::size_t{800};

    explicit runtime_enable(bool e) noexcept : on{e} {}
    [[nodiscard]] bool runtime_enabled() const noexcept { return on; }

    template <typename ProcessedTarget, typename... Parents>
    [[nodiscard]] ar::parsing::pre_parse_result pre_parse_phase(ar::parsing::dynamic_token_adapter&,
                                                                ar::utility::compile_time_optional<ProcessedTarget>,
                                                                ar::parsing::parse_target&,
                                                                const Parents&...) const
    {
        if (on) {
            return ar::parsing::pre_parse_action::valid_node;
        }
        return ar::parsing::pre_parse_action::skip_node;
    }

protected:
    bool on;
};

template <typename T>
class runtime_enable_required : public runtime_enable<>
{
public:
    explicit runtime_enable_required(bool e, T v = {}) noexcept : runtime_enable<>{e}, value_{std::move(v)} {}

    template <typename ValueType, typename... Parents>
    [[nodiscard]] ValueType missing_phase(const Parents&...) const
    {
        using Node = boost::mp11::mp_first<std::tuple<Parents...>>;
        if (on) {
            throw ar::multi_lang_exception{ar::error_code::missing_required_argument,
                                           ar::parsing::node_token_type<Node>()};
        }
        return value_;
    }

private:
    T value_;
};

// ---------------------------------------------------------------- parse, validation and routing phases
template <typename T>
class custom_parser
{
public:
    explicit custom_parser(std::function<T(std::string_view)> f) : f_{std::move(f)} {}
    template <typename ValueType, typename... Parents>
    [[nodiscard]] ValueType parse_phase(std::string_view token, const Parents&...) const
    {
        return f_(token);
    }

private:
    std::function<T(std::string_view)> f_;
};

template <typename T>
class bounds
{
public:
    bounds(std::optional<T> lo, std::optional<T> hi) : lo_{std::move(lo)}, hi_{std::move(hi)} {}

    template <typename InputValueType, typename... Parents>
    void validation_phase(const InputValueType& value, const Parents&...) const
    {
        using Node = boost::mp11::mp_first<std::tuple<Parents...>>;
        if (lo_ && value < *lo_) {
            throw ar::multi_lang_exception{ar::error_code::minimum_value_not_reached,
                                           ar::parsing::node_token_type<Node>()};
        }
        if (hi_ && *hi_ < value) {
            throw ar::multi_lang_exception{ar::error_code::maximum_value_exceeded,
                                           ar::parsing::node_token_type<Node>()};
        }
    }

private:
    std::optional<T> lo_;
    std::optional<T> hi_;
};
template <typename Min, typename Max>
class bounds_ct : public bounds<typename Min::value_type>
{
public:
    bounds_ct() : bounds<typename Min::value_type>{Min::value, Max::value} {}
    [[nodiscard]] constexpr static auto minimum_value() noexcept { return Min::value; }
    [[nodiscard]] constexpr static auto maximum_value() noexcept { return Max::value; }
};
template <typename Min>
class lower_ct : public bounds<typename Min::value_type>
{
public:
    lower_ct() : bounds<typename Min::value_type>{Min::value, std::nullopt} {}
    [[nodiscard]] constexpr static auto minimum_value() noexcept { return Min::value; }
};
template <typename Max>
class upper_ct : public bounds<typename Max::value_type>
{
public:
    upper_ct() : bounds<typename Max::value_type>{std::nullopt, Max::value} {}
    [[nodiscard]] constexpr static auto maximum_value() noexcept { return Max::value; }
};
template <typename T>
auto min_max_value(T lo, T hi)
{
    return bounds<T>{lo, hi};
}
template <typename T>
auto min_value(T lo)
{
    return bounds<T>{lo, std::nullopt};
}
template <typename T>
auto max_value(T hi)
{
    return bounds<T>{std::nullopt, hi};
}
template <auto Min, auto Max>
auto min_max_value()
{
    return bounds_ct<ar::traits::integral_constant<Min>, ar::traits::integral_constant<Max>>{};
}
template <auto Min>
auto min_value()
{
    return lower_ct<ar::traits::integral_constant<Min>>{};
}
template <auto Max>
auto max_value()
{
    return upper_ct<ar::traits::integral_constant<Max>>{};
}

template <typename Fn>
class router
{
public:
    constexpr explicit router(Fn f) noexcept : f_{std::move(f)} {}
    template <typename... Args>
    void routing_phase(Args&&... args) const
    {
        f_(std::forward<Args>(args)...);
    }

private:
    Fn f_;
};

// ---------------------------------------------------------------- a help formatter without run time help data
template <typename Base>
class formatter
{
public:
    template <typename Node, typename HelpNode, bool Flatten>
    static void generate_help(std::ostream& stream)
    {
        Base::template generate_help<Node, HelpNode, Flatten>(stream);
    }
};
// ... and one with
template <typename Base>
class rt_formatter
{
public:
    template <typename Node, typename HelpNode, bool Flatten>
    static void generate_help(std::ostream& stream)
    {
        Base::template generate_help<Node, HelpNode, Flatten>(stream);
    }
    template <typename Node, typename HelpNode, bool Flatten>
    static void generate_help(std::ostream& stream, const ar::runtime_help_data& data)
    {
        Base::template generate_help<Node, HelpNode, Flatten>(stream, data);
    }
};

// ---------------------------------------------------------------- translation of errors
template <typename Base>
class translator
{
public:
    [[noreturn]] static void translate_exception(const ar::multi_lang_exception& e) { Base::translate_exception(e); }
};
}  // namespace vtu

namespace arg_router::policy
{
#define VTU_POLICY1(NAME)                                     \
    template <typename T>                                     \
    struct is_policy<vtu::NAME<T>> : std::true_type {         \
    };
#define VTU_POLICY2(NAME)                                     \
    template <typename T, typename U>                         \
    struct is_policy<vtu::NAME<T, U>> : std::true_type {      \
    };
VTU_POLICY1(long_name_t)
VTU_POLICY1(short_name_t)
VTU_POLICY1(none_name_t)
VTU_POLICY1(display_name_t)
VTU_POLICY1(description_t)
VTU_POLICY1(error_name_t)
VTU_POLICY1(required_t)
VTU_POLICY1(default_value)
VTU_POLICY2(count_t)
VTU_POLICY1(value_separator_t)
VTU_POLICY1(token_end_marker_t)
VTU_POLICY1(runtime_enable)
VTU_POLICY1(runtime_enable_required)
VTU_POLICY1(custom_parser)
VTU_POLICY1(bounds)
VTU_POLICY2(bounds_ct)
VTU_POLICY1(lower_ct)
VTU_POLICY1(upper_ct)
VTU_POLICY1(router)
VTU_POLICY1(formatter)
VTU_POLICY1(rt_formatter)
VTU_POLICY1(translator)
#undef VTU_POLICY1
#undef VTU_POLICY2
}  // namespace arg_router::policy

namespace vtu
{
// ---------------------------------------------------------------- nodes
using no_tokens = arp::min_max_count_t<size_constant<0>, size_constant<0>>;
using one_token = arp::min_max_count_t<size_constant<1>, size_constant<1>>;

template <typename... Policies>
class flag_t : public ar::tree_node<arp::default_value<bool>, no_tokens, std::decay_t<Policies>...>
{
    using parent_type = ar::tree_node<arp::default_value<bool>, no_tokens, std::decay_t<Policies>...>;

public:
    using typename parent_type::policies_type;
    using value_type = bool;
    template <bool Flatten>
    using help_data_type = typename parent_type::template default_leaf_help_data_type<Flatten>;

    constexpr explicit flag_t(Policies... p) noexcept :
        parent_type{arp::default_value<bool>{false}, no_tokens{}, std::move(p)...}
    {
    }

    template <typename Validator, bool HasTarget, typename... Parents>
    [[nodiscard]] std::optional<ar::parsing::parse_target> pre_parse(
        ar::parsing::pre_parse_data<Validator, HasTarget> data, const Parents&... parents) const
    {
        return parent_type::pre_parse(data, *this, parents...);
    }

    template <typename... Parents>
    value_type parse(ar::parsing::parse_target&&, const Parents&...) const
    {
        using routing = typename parent_type::template phase_finder_t<arp::has_routing_phase_method>;
        if constexpr (!std::is_void_v<routing>) {
            this->routing::routing_phase(true);
        }
        return true;
    }
};

template <typename T, typename... Policies>
class counting_flag_t :
    public ar::tree_node<arp::multi_stage_value<T, bool>, no_tokens, std::decay_t<Policies>...>
{
    using parent_type = ar::tree_node<arp::multi_stage_value<T, bool>, no_tokens, std::decay_t<Policies>...>;

public:
    using typename parent_type::policies_type;
    using value_type = T;
    template <bool Flatten>
    using help_data_type = typename parent_type::template default_leaf_help_data_type<Flatten>;

    constexpr explicit counting_flag_t(Policies... p) noexcept :
        parent_type{arp::multi_stage_value<T, bool>{[](std::optional<T>& total, bool&& one) {
                        total = static_cast<T>(static_cast<std::size_t>(total.value_or(T{})) + (one ? 1 : 0));
                    }},
                    no_tokens{},
                    std::move(p)...}
    {
    }

    template <typename Validator, bool HasTarget, typename... Parents>
    [[nodiscard]] std::optional<ar::parsing::parse_target> pre_parse(
        ar::parsing::pre_parse_data<Validator, HasTarget> data, const Parents&... parents) const
    {
        return parent_type::pre_parse(data, *this, parents...);
    }

    template <typename... Parents>
    bool parse(ar::parsing::parse_target&&, const Parents&...) const
    {
        return true;
    }
};

// Nodes that take values: what each adds is only its name and its help label
#define VTU_NODE(NAME, BASE, INIT)                                                                            \
    template <typename T, typename... Policies>                                                              \
    class NAME : public BASE                                                                                  \
    {                                                                                                         \
        using parent_type = BASE;                                                                             \
                                                                                                              \
    public:                                                                                                   \
        using typename parent_type::policies_type;                                                           \
        using value_type = typename parent_type::value_type;                                                 \
        template <bool Flatten>                                                                               \
        using leaf = typename parent_type::template default_leaf_help_data_type<Flatten>;                    \
        template <bool Flatten>                                                                               \
        struct help_data_type {                                                                               \
            using label = std::decay_t<decltype(NAME::template label_of<leaf<Flatten>>())>;                  \
            using description = typename leaf<Flatten>::description;                                         \
            using children = std::tuple<>;                                                                    \
        };                                                                                                    \
        template <typename Leaf>                                                                              \
        [[nodiscard]] constexpr static auto label_of() noexcept;                                             \
                                                                                                              \
        constexpr explicit NAME(Policies... p) noexcept : parent_type{INIT std::move(p)...} {}               \
                                                                                                              \
        template <typename Validator, bool HasTarget, typename... Parents>                                   \
        [[nodiscard]] std::optional<ar::parsing::parse_target> pre_parse(                                    \
            ar::parsing::pre_parse_data<Validator, HasTarget> data, const Parents&... parents) const         \
        {                                                                                                     \
            return parent_type::pre_parse(data, *this, parents...);                                          \
        }                                                                                                     \
        template <typename... Parents>                                                                        \
        [[nodiscard]] value_type parse(ar::parsing::parse_target target, const Parents&... parents) const    \
        {                                                                                                     \
            return parent_type::parse(target, *this, parents...);                                            \
        }                                                                                                     \
    };                                                                                                        \
    template <typename T, typename... Policies>                                                              \
    template <typename Leaf>                                                                                  \
    constexpr auto NAME<T, Policies...>::label_of() noexcept
#define VTU_COMMA ,
VTU_NODE(arg_t, ar::multi_arg_base_t<T VTU_COMMA 1 VTU_COMMA one_token VTU_COMMA std::decay_t<Policies>...>, one_token{} VTU_COMMA)
{
    return Leaf::label_generator();
}
VTU_NODE(multi_arg_t, ar::multi_arg_base_t<T VTU_COMMA 1 VTU_COMMA std::decay_t<Policies>...>, )
{
    return Leaf::label_generator() + AR_STRING(" "){} + Leaf::count_suffix();
}
VTU_NODE(positional_arg_t, ar::multi_arg_base_t<T VTU_COMMA 0 VTU_COMMA std::decay_t<Policies>...>, )
{
    using name = std::tuple_element_t<
        boost::mp11::mp_find_if<policies_type, ar::traits::has_display_name_method>::value,
        policies_type>;
    return AR_STRING("<"){} + typename name::string_type{} + AR_STRING("> "){} + Leaf::count_suffix();
}
#undef VTU_COMMA
#undef VTU_NODE

namespace stp = ar::utility::string_to_policy;

template <typename... Policies>
[[nodiscard]] constexpr auto flag(Policies... policies) noexcept
{
    return std::apply(
        [](auto... p) {
            if constexpr (boost::mp11::mp_any_of<std::tuple<std::decay_t<decltype(p)>...>,
                                                 ar::traits::has_short_name_method>::value) {
                return flag_t{arp::short_form_expander, std::move(p)...};
            } else {
                return flag_t{std::move(p)...};
            }
        },
        stp::convert<stp::first_string_mapper<long_name_t>,
                     stp::second_string_mapper<description_t>,
                     stp::single_char_mapper<short_name_t>>(std::move(policies)...));
}
template <typename T, typename... Policies>
[[nodiscard]] constexpr auto counting_flag(Policies... policies) noexcept
{
    return std::apply(
        [](auto... p) {
            if constexpr (boost::mp11::mp_any_of<std::tuple<std::decay_t<decltype(p)>...>,
                                                 ar::traits::has_short_name_method>::value) {
                return counting_flag_t<T, arp::short_form_expander_t<>, std::decay_t<decltype(p)>...>{
                    arp::short_form_expander, std::move(p)...};
            } else {
                return counting_flag_t<T, std::decay_t<decltype(p)>...>{std::move(p)...};
            }
        },
        stp::convert<stp::first_string_mapper<long_name_t>,
                     stp::second_string_mapper<description_t>,
                     stp::single_char_mapper<short_name_t>>(std::move(policies)...));
}
template <typename T, typename... Policies>
[[nodiscard]] constexpr auto arg(Policies... policies) noexcept
{
    return std::apply([](auto... p) { return arg_t<T, std::decay_t<decltype(p)>...>{std::move(p)...}; },
                      stp::convert<stp::first_string_mapper<long_name_t>,
                                   stp::second_string_mapper<description_t>,
                                   stp::single_char_mapper<short_name_t>>(std::move(policies)...));
}
template <typename T, typename... Policies>
[[nodiscard]] constexpr auto multi_arg(Policies... policies) noexcept
{
    return std::apply([](auto... p) { return multi_arg_t<T, std::decay_t<decltype(p)>...>{std::move(p)...}; },
                      stp::convert<stp::first_string_mapper<long_name_t>,
                                   stp::second_string_mapper<description_t>,
                                   stp::single_char_mapper<short_name_t>>(std::move(policies)...));
}
template <typename T, typename... Policies>
[[nodiscard]] constexpr auto positional_arg(Policies... policies) noexcept
{
    return std::apply(
        [](auto... p) { return positional_arg_t<T, std::decay_t<decltype(p)>...>{std::move(p)...}; },
        stp::convert<stp::first_text_mapper<display_name_t>, stp::second_text_mapper<description_t>>(
            std::move(policies)...));
}

// ---------------------------------------------------------------- validator: the default rules, with the new types added
namespace av = arp::validation;
using rules0 = av::utility::default_rules;
using rules1 = av::utility::
    add_to_rule_types_by_rule_t<av::common_rules::despecialised_any_of_rule<ar::flag_t>, flag_t, rules0>;
using rules2 = av::utility::
    add_to_rule_types_by_rule_t<av::common_rules::despecialised_any_of_rule<ar::arg_t>, arg_t, rules1>;
using rules3 = av::utility::
    add_to_rule_types_by_rule_t<av::common_rules::despecialised_any_of_rule<ar::multi_arg_t>, multi_arg_t, rules2>;
using rules4 = av::utility::add_to_rule_types_by_rule_t<
    av::common_rules::despecialised_any_of_rule<ar::positional_arg_t>, positional_arg_t, rules3>;
using rules5 = av::utility::add_to_rule_types_by_rule_t<
    av::common_rules::despecialised_any_of_rule<arp::long_name_t, arp::short_name_t>, long_name_t, rules4>;
using rules6 = av::utility::add_to_rule_types_by_rule_t<
    av::common_rules::despecialised_any_of_rule<arp::long_name_t, arp::short_name_t, long_name_t>, short_name_t, rules5>;
using rules7 = av::utility::insert_rule_t<
    0,
    av::rule_q<av::common_rules::despecialised_any_of_rule<count_t>, av::despecialised_unique_in_owner>,
    rules6>;
using rules8 = av::utility::add_to_rule_types_by_rule_t<
    av::common_rules::despecialised_any_of_rule<ar::counting_flag_t>, counting_flag_t, rules7>;
using validator = av::validator_from_tuple<rules8>;
}  // namespace vtu
