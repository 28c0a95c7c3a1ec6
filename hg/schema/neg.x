/* values outside of the non negative range: not for complement mode */
const LOW = -3;
enum signed_e { A_MIN = -2147483648, A_NEG = LOW, A_ZERO = 0, A_MAX = 2147483647 };
struct s_holder { signed_e a; signed_e l<>; signed_e *o; signed_e f[2]; };
