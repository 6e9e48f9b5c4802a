// The script of c29_testmacros.cpp, once for a plain function and once for a coroutine.
// T(x): the macro x of QtTest or its counterpart; V(x): the value x, at once or awaited.
for (const auto &op : s.ops) {
    PAUSE(op);
    switch (op.kind) {
    case 0: T(VERIFY)(V(s.truth(op))); break;
    case 1: T(VERIFY2)(V(s.truth(op)), op.text.constData()); break;
    case 2: T(COMPARE)(V(s.number(op)), 7); break;
    case 3: T(COMPARE)(V(s.string(op)), QStringLiteral("seven")); break;
    case 4: T(COMPARE)(V(s.bytes(op)), QByteArray("seven")); break;
    case 5: if (op.good) T(VERIFY)(V(s.truth(op))); else T(FAIL)(op.text.constData()); break;
    case 6: if (op.good) T(VERIFY2)(V(s.truth(op)), "fine"); else T(SKIP)(op.text.constData()); break;
    case 7: T(EXPECT_FAIL)("", op.text.constData(), Continue); break;
    case 8: T(EXPECT_FAIL)("", op.text.constData(), Abort); break;
    case 9: T(VERIFY_THROWS_EXCEPTION)(std::runtime_error, s.raise(V(s.number(op)))); break;
    case 10: T(VERIFY_EXCEPTION_THROWN)(s.raise(V(s.number(op))), Err); break;
    case 11: T(TEST)(V(s.number(op)), "number"); break;
    case 15: T(TRY_VERIFY_WITH_TIMEOUT)(V(s.truth(op)), 20); break;
    case 13: T(TRY_VERIFY2_WITH_TIMEOUT)(V(s.truth(op)), op.text.constData(), 10); break;
    case 14: T(TRY_COMPARE_WITH_TIMEOUT)(V(s.number(op)), 7, 10); break;
    default: T(COMPARE)(V(s.number(op)) / 2.0, 3.5); break;
    }
    ++s.position;
}
