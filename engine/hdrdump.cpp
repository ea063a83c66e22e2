// Lists the functions and variables declared in files below a root, from the syntax tree.  usage: hdrdump ROOT clang-args... FILE
#include <clang-c/Index.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
static std::string root;
static std::string str(CXString s) { std::string r = clang_getCString(s) ? clang_getCString(s) : ""; clang_disposeString(s); return r; }
static std::string qual(CXCursor c) {
    std::string r;
    for (CXCursor p = c; !clang_Cursor_isNull(p) && !clang_isTranslationUnit(clang_getCursorKind(p)); p = clang_getCursorSemanticParent(p))
        r = r.empty() ? str(clang_getCursorSpelling(p)) : str(clang_getCursorSpelling(p)) + "::" + r;
    return r;
}
static bool intemplate(CXCursor c) {
    for (CXCursor p = clang_getCursorSemanticParent(c); !clang_Cursor_isNull(p) && !clang_isTranslationUnit(clang_getCursorKind(p)); p = clang_getCursorSemanticParent(p)) {
        auto k = clang_getCursorKind(p);
        if (k == CXCursor_ClassTemplate || k == CXCursor_ClassTemplatePartialSpecialization) return true;
    }
    return false;
}
static CXChildVisitResult visit(CXCursor c, CXCursor, CXClientData) {
    auto k = clang_getCursorKind(c);
    if (k == CXCursor_Namespace || k == CXCursor_ClassDecl || k == CXCursor_StructDecl || k == CXCursor_LinkageSpec || k == CXCursor_UnexposedDecl) {
        if (k != CXCursor_Namespace && k != CXCursor_LinkageSpec && k != CXCursor_UnexposedDecl) {
            CXFile f; unsigned l; clang_getExpansionLocation(clang_getCursorLocation(c), &f, &l, nullptr, nullptr);
            if (!f || str(clang_getFileName(f)).compare(0, root.size(), root) != 0) return CXChildVisit_Continue;
        }
        return CXChildVisit_Recurse;
    }
    if (k != CXCursor_FunctionDecl && k != CXCursor_CXXMethod && k != CXCursor_Constructor && k != CXCursor_Destructor && k != CXCursor_ConversionFunction && k != CXCursor_VarDecl)
        return CXChildVisit_Continue;
    CXFile f; unsigned l; clang_getExpansionLocation(clang_getCursorLocation(c), &f, &l, nullptr, nullptr);
    std::string file = f ? str(clang_getFileName(f)) : "";
    if (file.compare(0, root.size(), root) != 0 || intemplate(c)) return CXChildVisit_Continue;
    std::string m;
    CXStringSet *set = (k == CXCursor_Constructor || k == CXCursor_Destructor) ? clang_Cursor_getCXXManglings(c) : nullptr;
    if (set) { for (unsigned i = 0; i < set->Count; ++i) m += std::string(i ? "," : "") + clang_getCString(set->Strings[i]); }
    else m = str(clang_Cursor_getMangling(c));
    CXCursor d = clang_getCursorDefinition(c);
    bool var = k == CXCursor_VarDecl;
    printf("%s\t%s\t%s:%u\t%s\t%d\t%d\t%d\t%d\t%d\t%d\n", var ? "var" : "fn", qual(c).c_str(), file.c_str(), l, m.c_str(), clang_Cursor_isNull(d) ? 0 : 1,
           var ? (int)clang_isConstQualifiedType(clang_getCursorType(c)) : (int)clang_Cursor_isFunctionInlined(c), (int)clang_CXXMethod_isPureVirtual(c), (int)clang_CXXMethod_isDeleted(c), (int)clang_getCursorLinkage(c),
           (int)clang_getCXXAccessSpecifier(c));
    return CXChildVisit_Continue;
}
int main(int argc, char **argv) {
    root = argv[1];
    std::vector<const char *> a(argv + 2, argv + argc - 1);
    CXIndex ix = clang_createIndex(0, 1);
    CXTranslationUnit tu = nullptr;
    if (clang_parseTranslationUnit2(ix, argv[argc - 1], a.data(), a.size(), nullptr, 0, CXTranslationUnit_None, &tu) || !tu) return 2;
    for (unsigned i = 0; i < clang_getNumDiagnostics(tu); ++i) {
        CXDiagnostic d = clang_getDiagnostic(tu, i);
        if (clang_getDiagnosticSeverity(d) >= CXDiagnostic_Error) { fprintf(stderr, "%s\n", str(clang_formatDiagnostic(d, clang_defaultDiagnosticDisplayOptions())).c_str()); return 3; }
    }
    clang_visitChildren(clang_getTranslationUnitCursor(tu), visit, nullptr);
    return 0;
}
