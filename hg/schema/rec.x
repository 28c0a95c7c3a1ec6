/* types that lead back to themselves: through aliases, options, arms, other types */
typedef entry *entries;
struct entry { int v; entries next; };
struct even { short v; odd *next; };
struct odd { int v; even *next; };
union list switch (int more) { case 0: cell n; case 1: void; };
struct cell { unsigned int v; list next; };
union expr switch (bool leaf) { case TRUE: int v; case FALSE: binary b; };
struct binary { expr *l; expr r<>; };
union chain switch (unsigned d) { case 2: chain *c; default: int v; };
struct forest { forest kids<>; entry *first; };
