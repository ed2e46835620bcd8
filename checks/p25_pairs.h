II(_Bool, _Bool, char, char)
II(_Bool, _Bool, schar, signed char)
II(_Bool, _Bool, short, short)
II(_Bool, _Bool, int, int)
II(_Bool, _Bool, long, long)
II(_Bool, _Bool, llong, long long)
II(_Bool, _Bool, uchar, unsigned char)
II(_Bool, _Bool, ushort, unsigned short)
II(_Bool, _Bool, uint, unsigned int)
II(_Bool, _Bool, ulong, unsigned long)
II(_Bool, _Bool, ullong, unsigned long long)
IF(_Bool, _Bool, float, float)
IF(_Bool, _Bool, double, double)
IF(_Bool, _Bool, ldouble, long double)
II(char, char, _Bool, _Bool)
II(char, char, schar, signed char)
II(char, char, short, short)
II(char, char, int, int)
II(char, char, long, long)
II(char, char, llong, long long)
II(char, char, uchar, unsigned char)
II(char, char, ushort, unsigned short)
II(char, char, uint, unsigned int)
II(char, char, ulong, unsigned long)
II(char, char, ullong, unsigned long long)
IF(char, char, float, float)
IF(char, char, double, double)
IF(char, char, ldouble, long double)
II(schar, signed char, _Bool, _Bool)
II(schar, signed char, char, char)
II(schar, signed char, short, short)
II(schar, signed char, int, int)
II(schar, signed char, long, long)
II(schar, signed char, llong, long long)
II(schar, signed char, uchar, unsigned char)
II(schar, signed char, ushort, unsigned short)
II(schar, signed char, uint, unsigned int)
II(schar, signed char, ulong, unsigned long)
II(schar, signed char, ullong, unsigned long long)
IF(schar, signed char, float, float)
IF(schar, signed char, double, double)
IF(schar, signed char, ldouble, long double)
II(short, short, _Bool, _Bool)
II(short, short, char, char)
II(short, short, schar, signed char)
II(short, short, int, int)
II(short, short, long, long)
II(short, short, llong, long long)
II(short, short, uchar, unsigned char)
II(short, short, ushort, unsigned short)
II(short, short, uint, unsigned int)
II(short, short, ulong, unsigned long)
II(short, short, ullong, unsigned long long)
IF(short, short, float, float)
IF(short, short, double, double)
IF(short, short, ldouble, long double)
II(int, int, _Bool, _Bool)
II(int, int, char, char)
II(int, int, schar, signed char)
II(int, int, short, short)
II(int, int, long, long)
II(int, int, llong, long long)
II(int, int, uchar, unsigned char)
II(int, int, ushort, unsigned short)
II(int, int, uint, unsigned int)
II(int, int, ulong, unsigned long)
II(int, int, ullong, unsigned long long)
IF(int, int, float, float)
IF(int, int, double, double)
IF(int, int, ldouble, long double)
II(long, long, _Bool, _Bool)
II(long, long, char, char)
II(long, long, schar, signed char)
II(long, long, short, short)
II(long, long, int, int)
II(long, long, llong, long long)
II(long, long, uchar, unsigned char)
II(long, long, ushort, unsigned short)
II(long, long, uint, unsigned int)
II(long, long, ulong, unsigned long)
II(long, long, ullong, unsigned long long)
IF(long, long, float, float)
IF(long, long, double, double)
IF(long, long, ldouble, long double)
II(llong, long long, _Bool, _Bool)
II(llong, long long, char, char)
II(llong, long long, schar, signed char)
II(llong, long long, short, short)
II(llong, long long, int, int)
II(llong, long long, long, long)
II(llong, long long, uchar, unsigned char)
II(llong, long long, ushort, unsigned short)
II(llong, long long, uint, unsigned int)
II(llong, long long, ulong, unsigned long)
II(llong, long long, ullong, unsigned long long)
IF(llong, long long, float, float)
IF(llong, long long, double, double)
IF(llong, long long, ldouble, long double)
II(uchar, unsigned char, _Bool, _Bool)
II(uchar, unsigned char, char, char)
II(uchar, unsigned char, schar, signed char)
II(uchar, unsigned char, short, short)
II(uchar, unsigned char, int, int)
II(uchar, unsigned char, long, long)
II(uchar, unsigned char, ushort, unsigned short)
II(uchar, unsigned char, uint, unsigned int)
II(uchar, unsigned char, ulong, unsigned long)
IF(uchar, unsigned char, double, double)
IF(uchar, unsigned char, float, float)
II(ushort, unsigned short, _Bool, _Bool)
II(ushort, unsigned short, char, char)
II(ushort, unsigned short, int, int)
II(ushort, unsigned short, long, long)
II(ushort, unsigned short, uchar, unsigned char)
II(ushort, unsigned short, uint, unsigned int)
II(ushort, unsigned short, ulong, unsigned long)
IF(ushort, unsigned short, double, double)
IF(ushort, unsigned short, float, float)
II(uint, unsigned int, _Bool, _Bool)
II(uint, unsigned int, char, char)
II(uint, unsigned int, schar, signed char)
II(uint, unsigned int, short, short)
II(uint, unsigned int, int, int)
II(uint, unsigned int, long, long)
II(uint, unsigned int, uchar, unsigned char)
II(uint, unsigned int, ushort, unsigned short)
II(uint, unsigned int, ulong, unsigned long)
II(uint, unsigned int, ullong, unsigned long long)
IF(uint, unsigned int, double, double)
IF(uint, unsigned int, float, float)
IF(uint, unsigned int, ldouble, long double)
II(ulong, unsigned long, _Bool, _Bool)
II(ulong, unsigned long, char, char)
II(ulong, unsigned long, schar, signed char)
II(ulong, unsigned long, short, short)
II(ulong, unsigned long, int, int)
II(ulong, unsigned long, long, long)
II(ulong, unsigned long, uchar, unsigned char)
II(ulong, unsigned long, ushort, unsigned short)
II(ulong, unsigned long, uint, unsigned int)
IF(ulong, unsigned long, double, double)
IF(ulong, unsigned long, float, float)
II(ullong, unsigned long long, _Bool, _Bool)
II(ullong, unsigned long long, char, char)
II(ullong, unsigned long long, int, int)
II(ullong, unsigned long long, uchar, unsigned char)
II(ullong, unsigned long long, uint, unsigned int)
IF(ullong, unsigned long long, double, double)
IF(ullong, unsigned long long, float, float)
FF(double, double, float, float)
FF(double, double, ldouble, long double)
FF(float, float, double, double)
FF(float, float, ldouble, long double)
FF(ldouble, long double, float, float)
FF(ldouble, long double, double, double)
