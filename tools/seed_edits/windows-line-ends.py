sub('src/lang/happyml_script_init.hpp','''        patterns.push_back(createSkippedToken("_return", "\\r"));
''','')
