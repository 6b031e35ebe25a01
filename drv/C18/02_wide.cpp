// compiled with the library under another namespace name and with the wide (16 bit) width field
#include "d_os.h"
template <class Ch> static void run(Ctx& c)
{
    Tape<Ch> t; capstream<Ch> o(&t); Model m; std::string want; int n = 1 + c.rng.below(20);
    while(n--)
    {
        want += act(c, o, m, 200);
        VF_REQ(t.text == widen<Ch>(want), "delivered \"%s\", expected \"%s\"", esc(t.text).c_str(), esc(want).c_str());
        check_state(c, o, m); c.nt();
    }
}
VF_GROUP_W(narrow_wide_width, 200) { run<char>(c); }
VF_GROUP_W(wide_characters, 200) { VF_EV("wide stream"); run<wchar_t>(c); }
