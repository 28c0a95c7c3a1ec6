/* aliases of opaque data: only with typedefs removed */
const N = 5;
typedef opaque blob<>;
typedef opaque cookie[N];
typedef cookie ticket;
typedef blob *maybe;
typedef cookie pile<>;
struct o_plain { blob b; cookie c; ticket t; int z; };
struct o_lists { blob bl<>; ticket cl<>; int z; };
struct o_arrays { blob bf[2]; cookie cf[2]; int z; };
struct o_opts { blob *bo; cookie *co; maybe m; int z; };
struct o_deep { pile p; pile pp<>; };
union o_union switch (int d) {
case 0: blob b;
case 1: cookie c;
case 2: blob bl<>;
case 3: ticket *co;
case 4: opaque raw<>;
case 5: opaque fix[6];
};
union o_def switch (unsigned d) {
case 0: void;
default: cookie c;
};
union o_defv switch (int d) {
case 1: int x;
default: blob b;
};
