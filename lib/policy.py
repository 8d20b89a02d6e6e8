"""which functions are inlined into the analysed entry"""
import re
from names import qname
STR_TRIV = {'data', 'size', 'length', 'c_str', 'begin', 'end', 'cbegin', 'cend', '_M_data', '_M_local_data', 'empty', 'operator[]', '_M_length', 'operator basic_string_view', 'front', 'back', 'starts_with', 'ends_with', 'at', 'rbegin', 'rend'}
SV_OPAQUE = re.compile(r"^(find|rfind|compare|copy)")
TRIV = re.compile(r"^(std|__gnu_cxx)::(forward|forward_like|to_address|__to_address|__sv_check|__sv_limit|__copy_n_a|__size_to_integer|move|min|max|distance|advance|next|prev|addressof|__addressof|begin|end|cbegin|cend|rbegin|rend|crbegin|crend|size|data|empty|ssize|swap|exchange|get|as_const|"
    r"vf_\w+|ranges::vf_\w+|copy|copy_n|__copy\w*(::\w+)?|__niter\w+|__miter\w+|__iterator_category|__distance|__advance|back_inserter|back_insert_iterator::.*|reverse_iterator::.*|char_traits::(eq|lt|assign|to_char_type|to_int_type|length|find|compare)|"
    r"(less|greater|less_equal|greater_equal|equal_to|not_equal_to|plus|minus|identity)::(operator\(\)|_S_\w+)|"
    r"array::.*|__array_traits::.*|span::.*|__detail::__extent_storage::.*|optional::(has_value|operator bool|operator\*|operator->|_M_is_engaged|_M_get|value)|_Optional_\w+::(_M_is_engaged|_M_get)|"
    r"construct_at|__is_constant_evaluated|is_constant_evaluated|atomic\w*(::.*)?|__atomic\w*(::.*)?|__cmpexch\w*|operator==|operator!=|operator<=>|operator<|operator>|operator<=|operator>=|chrono::.*|numeric_limits::.*|_Setw|setw|"
    r"__glibcxx_assert_fail_never|iter_swap|clamp|__cmp_cat::.*|strong_ordering::.*|invoke|__invoke\w*|ranges::__access::.*|ranges::__swap::.*|ranges::__cust\w*::.*|__normal_iterator::.*|operator-|operator\+|initializer_list::.*)$")
OPAQUE_OPS = re.compile(r"basic_string<|basic_ostream|basic_istream|unordered_map|_Hashtable|vector<")
def make(extra_inline=(), extra_opaque=(), ns=('opencmw', 'base64pp', 'kainjow', 'vfi')):
    ei = [re.compile(x) for x in extra_inline]; eo = [re.compile(x) for x in extra_opaque]
    def pol(d, m):
        if m.startswith('vf_'): return False
        q = qname(d)
        if any(r.search(q) for r in eo): return False
        if any(r.search(q) for r in ei): return True
        if 'lambda' in d and not re.search(r"std::(sort|stable_sort|__introsort|function|thread|jthread|_Function|move_only_function|async|packaged_task)", d): return True   # algorithms instantiated with a local function object
        top = q.split('::')[0]
        if top in ns: return True
        if any(d.startswith(n + '::') for n in ns): return True
        if q.startswith('std::basic_string_view::'): return not SV_OPAQUE.match(q.rsplit('::', 1)[1])
        if q.startswith('std::basic_string::'): return q[len('std::basic_string::'):] in STR_TRIV
        if TRIV.match(q):
            ps = d[d.find('('):] if '(' in d else ''
            if re.match(r"^std::(operator|swap|iter_swap)", q) and OPAQUE_OPS.search(ps): return False
            return True
        return False
    return pol
UNROLL = "always-inline,function(lower-expect,simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),always-inline," \
         "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,dse,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce"
ALGOS = ["-include", "vf_algos.h"]
