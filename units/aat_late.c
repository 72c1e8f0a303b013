// linked after the recursive calls were replaced by their contract: the calls
// made here reach the real bodies
#if TREE == 4
typedef struct sco T;
#else
typedef struct coroutine T;
#endif
typedef T *(*f3)(T*, T*, T**); typedef T *(*f2)(T*, T**);
extern f3 p_ins, p_del; extern f2 p_first, p_last;
T *real_ins(T *a, T *b, T **c) { return p_ins(a, b, c); }
T *real_del(T *a, T *b, T **c) { return p_del(a, b, c); }
T *real_first(T *a, T **c) { return p_first(a, c); }
T *real_last(T *a, T **c) { return p_last(a, c); }
