// reads "op a b round" lines, prints result and status: compared with Python's decimal module by tools/decimal_check.py
#include <decimal.hh>
#include <iostream>
#include <sstream>
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string op, a, b; int r; is >> op >> a >> b >> r;
        decimal::context = decimal::IEEEContext(160); decimal::context.prec(38); decimal::context.round(r);
        decimal::Decimal x(a), y(b); decimal::context.clear_status(); std::string o;
        if (op == "add") o = (x + y).to_sci(); else if (op == "sub") o = (x - y).to_sci(); else if (op == "mul") o = (x * y).to_sci(); else if (op == "div") o = (x / y).to_sci(); else if (op == "rem") o = (x % y).to_sci();
        else if (op == "neg") o = (-x).to_sci(); else if (op == "plus") o = (+x).to_sci(); else if (op == "red") o = x.reduce().to_sci(); else if (op == "int") o = x.to_integral_exact().to_sci();
        else if (op == "cmp") o = std::to_string(decimal::Decimal::cmp(x, y)); else if (op == "scb") o = x.scaleb(y).to_sci(); else if (op == "qua") o = x.quantize(y).to_sci();
        auto s = decimal::context.status();
        std::cout << o << " " << ((s & MPD_Inexact) ? "I" : "") << ((s & MPD_IEEE_Invalid_operation) ? "V" : "") << ((s & MPD_Division_by_zero) ? "Z" : "") << ((s & MPD_Overflow) ? "O" : "") << "\n";
    }
}
