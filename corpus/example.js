/*
 * small javascript example
 */

var a = [100];
var b = /a\reg\\[exp]/i;
function c() {
    obj.meth(234);
    a[0] = "abc123";
}

