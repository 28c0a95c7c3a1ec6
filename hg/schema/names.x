/* types that are called like types and traits generated code itself uses */
enum result { R_OK = 0, R_ERR = 1 };
struct option { int v; result r; };
typedef option String;
typedef string vec<>;
struct Box { vec v<>; option *o; String s; result f[2]; };
union Default switch (result r) { case R_OK: Box b; case R_ERR: option o<>; };
struct Serialize { Deserialize *n; Default d; };
struct Deserialize { vec a; as_ref b; };
union as_ref switch (bool b) { case TRUE: try_from x; case FALSE: void; };
struct try_from { xdr_union u; };
union xdr_union switch (int d) { case 1: int x; case 2: opaque y<>; };
enum xdr_indexer { X = 0 };
