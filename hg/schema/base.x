/* every construct that works in every mode */
const LEN = 3;
const ALSO = LEN;
const HEX = 0x10;
const OCT = 010;
const NEG = -7;
const HUGE = 0xFFFFFFFFFF;

enum color { RED = 0, GREEN = 1, BLUE = 4 };
enum status {
    ST_WORST = 0x0a,
    ST_LEN = ALSO,
    ST_OCT = 010,
    ST_AGAIN_X = 5
};
enum dense { D_ONE = 1, D_ZERO = 0 };

typedef int number;
typedef number number2;
typedef color hue;
typedef hue tint;
typedef int row[LEN];
typedef unsigned hyper ids<>;
typedef string title<HEX>;

struct scalars {
    int a;
    unsigned int b;
    hyper c;
    unsigned hyper d;
    float e;
    double f;
    bool g;
    unsigned h;
};
struct small_ints { char a; unsigned char b; short c; unsigned short d; };
struct texts { string s<>; opaque v<HEX>; opaque f3[LEN]; opaque f4[4]; string t<8>; };
struct pair { unsigned short x; int y; };
struct arrays { int fix[ALSO]; unsigned int var<>; bool b[2]; };
struct earrays { color cf[2]; color cv<5>; };
struct parrays { pair pf[2]; pair pv<>; };
struct opts { int *p; color *c; pair *q; hyper *h; };
struct node { int value; node *next; };
struct tree { short value; tree kids<>; };
struct words { int type; unsigned int match; short self; int _x; int camelCase; int r2d2; hyper Upper; };
struct aliases { number n; number2 m; tint t; row r; ids i; title s; };
struct aliases2 { number arr[2]; row rr[2]; number *o; row *ro; };
struct aliases3 { ids vv<>; tint tv<>; };
struct enums { status s; int k; dense d; status *o; };
struct gaps { int a; void; int b; };

union u_int switch (int d) {
case 0: int a;
case 3: void;
case 5:
case 7: string s<>;
};
union u_uns switch (unsigned int which) {
case LEN: opaque o<>;
case 1: hyper h;
default: void;
};
union u_def switch (int d) {
case 2: pair p;
case 1: int v<>;
default: unsigned hyper z;
};
union u_bool switch (bool b) { case TRUE: int x; case FALSE: void; };
union u_bool1 switch (bool b) { case TRUE: opaque f[LEN]; default: unsigned int z; };
union u_bool0 switch (bool b) { case FALSE: short s; default: void; };
union u_enum switch (color c) { case RED: int a; case BLUE: pair m; case GREEN: void; };
union u_stat switch (status c) { case ST_WORST: pair m[2]; case ST_LEN: pair *o; case 8: opaque q[5]; };
union u_alias switch (tint t) { case GREEN: opaque f[5]; default: string s<>; };
union u_num switch (number2 d) { case 2: color c; case 4: node n; default: void; };
struct holder { u_int a; u_enum b<>; u_bool *c; u_num d[2]; int z; };

program PROG { version VERS { void NULLPROC(void) = 0; int ADD(pair) = 1; } = 1; } = 0x20000001;
