//go:build go1.21

package main

// partRule says what a kind of part is made of. The rules were read off the interfaces and the messages of the
// builders, tried on the code, and reviewed one by one.
type partRule struct {
	custom  bool              // judged apart
	need    [][]string        // it is built when everything of one of these was given
	one     []string          // alternatives: one at most is given
	gives   map[string]string // what was given to the first is given back by the second
	tells   map[string]string // the first is true exactly when the second was given
	refused []string          // an empty value is no value, and one is needed
	absent  []string          // an empty value is as if nothing was given
	kept    []string          // an empty value is a value
}

var partRules = map[string]partRule{
	"scripts/base/parsers.ProgramBuilder": {
		need:  [][]string{{"WithInstructions"}},
		gives: map[string]string{"WithInstructions": "Instructions", "WithVariables": "Variables"},
		tells: map[string]string{"HasVariables": "WithVariables"},
	},
	"scripts/base/parsers.HeaderVariablesBuilder": {
		need:    [][]string{{"WithVariables"}},
		gives:   map[string]string{"WithVariables": "All"},
		refused: []string{"WithVariables"},
	},
	"scripts/base/parsers.HeaderVariableBuilder": {
		need:    [][]string{{"WithDeclaration", "WithKeyname"}},
		gives:   map[string]string{"WithDeclaration": "Declaration", "WithKeyname": "Keyname"},
		tells:   map[string]string{"IsInput": "IsInput", "IsMandatory": "IsMandatory"},
		refused: []string{"WithKeyname"},
	},
	"scripts/base/parsers.InstructionsBuilder": {
		need:    [][]string{{"WithInstructions"}},
		gives:   map[string]string{"WithInstructions": "All"},
		refused: []string{"WithInstructions"},
	},
	"scripts/base/parsers.InstructionBuilder": {
		need:  [][]string{{"WithAssignment"}, {"WithDirection"}, {"WithForDeclaration"}, {"WithFuncCall"}, {"WithIfDeclaration"}, {"WithIntIncrement"}, {"WithVariableDeclaration"}},
		one:   []string{"WithAssignment", "WithDirection", "WithForDeclaration", "WithFuncCall", "WithIfDeclaration", "WithIntIncrement", "WithVariableDeclaration"},
		gives: map[string]string{"WithAssignment": "Assignment", "WithDirection": "Direction", "WithForDeclaration": "ForDeclaration", "WithFuncCall": "FuncCall", "WithIfDeclaration": "IfDeclaration", "WithIntIncrement": "IntIncrement", "WithVariableDeclaration": "VariableDeclaration"},
		tells: map[string]string{"IsAssignment": "WithAssignment", "IsDirection": "WithDirection", "IsForDeclaration": "WithForDeclaration", "IsFuncCall": "WithFuncCall", "IsIfDeclaration": "WithIfDeclaration", "IsIntIncrement": "WithIntIncrement", "IsVariableDeclaration": "WithVariableDeclaration"},
	},
	"scripts/base/parsers.DirectionBuilder": {
		need:  [][]string{{"IsBreak"}, {"IsContinue"}},
		one:   []string{"IsBreak", "IsContinue"},
		tells: map[string]string{"IsBreak": "IsBreak", "IsContinue": "IsContinue"},
	},
	"scripts/base/parsers.VoidFuncCallBuilder": {
		need:  [][]string{{"WithLog"}},
		gives: map[string]string{"WithLog": "Log"},
		tells: map[string]string{"IsLog": "WithLog"},
	},
	"scripts/base/parsers.ForDeclarationBuilder": {
		need:  [][]string{{"WithStatement"}},
		gives: map[string]string{"WithInstructions": "Instructions", "WithStatement": "Statement"},
		tells: map[string]string{"HasInstructions": "WithInstructions"},
	},
	"scripts/base/parsers.ForStatementBuilder": {
		need:  [][]string{{"WithIndex", "WithIterable", "WithValue"}},
		gives: map[string]string{"WithIndex": "Index", "WithIterable": "Iterable", "WithValue": "Value"},
	},
	"scripts/base/parsers.IfDeclarationBuilder": {
		need:  [][]string{{"WithCondition"}},
		gives: map[string]string{"WithCondition": "Condition", "WithInstructions": "Instructions"},
		tells: map[string]string{"HasInstructions": "WithInstructions"},
	},
	"scripts/base/parsers.IntIncrementBuilder": {
		need:    [][]string{{"WithIncrement", "WithVariableName"}},
		gives:   map[string]string{"WithIncrement": "Increment", "WithVariableName": "VariableName"},
		refused: []string{"WithVariableName"},
	},
	"scripts/base/parsers.AssignmentBuilder": {
		need:  [][]string{{"WithAssignables", "WithAssignee"}},
		gives: map[string]string{"WithAssignables": "Assignables", "WithAssignee": "Assignee"},
	},
	"scripts/base/parsers.AssigneeBuilder": {
		need:  [][]string{{"WithFirst"}, {"WithName"}},
		one:   []string{"WithFirst", "WithName"},
		gives: map[string]string{"WithFirst": "First", "WithName": "Name"},
		tells: map[string]string{"IsFirst": "WithFirst", "IsName": "WithName"},
	},
	"scripts/base/parsers.AssigneeNameFirstsBuilder": {
		need:    [][]string{{"WithNames"}},
		gives:   map[string]string{"WithNames": "All"},
		refused: []string{"WithNames"},
	},
	"scripts/base/parsers.AssigneeNameFirstBuilder": {
		need:  [][]string{{"WithAssigneeName"}, {"WithDeclaration"}},
		one:   []string{"WithAssigneeName", "WithDeclaration"},
		gives: map[string]string{"WithAssigneeName": "AssigneeName", "WithDeclaration": "Declaration"},
		tells: map[string]string{"IsAssigneeName": "WithAssigneeName", "IsDeclaration": "WithDeclaration"},
	},
	"scripts/base/parsers.AssigneeNamesBuilder": {
		need:    [][]string{{"WithNames"}},
		gives:   map[string]string{"WithNames": "All"},
		refused: []string{"WithNames"},
	},
	"scripts/base/parsers.AssigneeNameBuilder": {
		need:    [][]string{{"IsSkip"}, {"WithVariable"}},
		one:     []string{"IsSkip", "WithVariable"},
		gives:   map[string]string{"WithVariable": "Variable"},
		tells:   map[string]string{"IsSkip": "IsSkip", "IsVariable": "WithVariable"},
		refused: []string{"WithVariable"},
	},
	"scripts/base/parsers.AssignablesBuilder": {
		need:  [][]string{{}},
		gives: map[string]string{"WithAssignables": "All"},
		kept:  []string{"WithAssignables"},
	},
	"scripts/base/parsers.AssignableBuilder": {
		need:  [][]string{{"WithList"}, {"WithSingle"}},
		one:   []string{"WithList", "WithSingle"},
		gives: map[string]string{"WithList": "List", "WithSingle": "Single"},
		tells: map[string]string{"IsList": "WithList", "IsSingle": "WithSingle"},
	},
	"scripts/base/parsers.SingleAssignableBuilder": {
		need:  [][]string{{"WithDeclarableValue"}, {"WithExtract"}, {"WithListFetchElement"}, {"WithOperation"}},
		one:   []string{"WithDeclarableValue", "WithExtract", "WithListFetchElement", "WithOperation"},
		gives: map[string]string{"WithDeclarableValue": "DeclarableValue", "WithExtract": "Extract", "WithListFetchElement": "ListFetchElement", "WithOperation": "Operation"},
		tells: map[string]string{"IsDeclarableValue": "WithDeclarableValue", "IsExtract": "WithExtract", "IsListFetchElement": "WithListFetchElement", "IsOperation": "WithOperation"},
	},
	"scripts/base/parsers.ListFetchElementBuilder": {
		need:  [][]string{{"WithIndex", "WithList"}},
		gives: map[string]string{"WithIndex": "Index", "WithList": "List"},
	},
	"scripts/base/parsers.TotalListValueBuilder": {
		need:    [][]string{{"WithAssignable"}, {"WithVariableName"}},
		one:     []string{"WithAssignable", "WithVariableName"},
		gives:   map[string]string{"WithAssignable": "Assignable", "WithVariableName": "VariableName"},
		tells:   map[string]string{"IsAssignable": "WithAssignable", "IsVariableName": "WithVariableName"},
		refused: []string{"WithVariableName"},
	},
	"scripts/base/parsers.TotalListAssignableBuilder": {
		need:  [][]string{{"WithAppend"}, {"WithListValue"}, {"WithSlice"}},
		one:   []string{"WithAppend", "WithListValue", "WithSlice"},
		gives: map[string]string{"WithAppend": "Append", "WithListValue": "ListValue", "WithSlice": "Slice"},
		tells: map[string]string{"IsAppend": "WithAppend", "IsListValue": "WithListValue", "IsSlice": "WithSlice"},
	},
	"scripts/base/parsers.ListValueBuilder": {
		need:    [][]string{{"WithAssignables"}, {"WithVariableName"}},
		one:     []string{"WithAssignables", "WithVariableName"},
		gives:   map[string]string{"WithAssignables": "Assignables", "WithVariableName": "VariableName"},
		tells:   map[string]string{"IsAssignables": "WithAssignables", "IsVariableName": "WithVariableName"},
		refused: []string{"WithVariableName"},
	},
	"scripts/base/parsers.AppendBuilder": {
		need:  [][]string{{"WithAssignable", "WithList"}},
		gives: map[string]string{"WithAssignable": "Assignable", "WithList": "List"},
	},
	"scripts/base/parsers.SliceBuilder": {
		need:  [][]string{{"WithDelimiter", "WithList"}},
		gives: map[string]string{"WithDelimiter": "Delimiter", "WithList": "List"},
	},
	"scripts/base/parsers.SliceDelimiterBuilder": {
		need:  [][]string{{"WithIndex"}},
		gives: map[string]string{"WithAmount": "Amount", "WithIndex": "Index"},
		tells: map[string]string{"HasAmount": "WithAmount"},
	},
	"scripts/base/parsers.IndexValueBuilder": {
		need:    [][]string{{"WithValue"}, {"WithVariableName"}},
		one:     []string{"WithValue", "WithVariableName"},
		gives:   map[string]string{"WithValue": "Value", "WithVariableName": "VariableName"},
		tells:   map[string]string{"IsValue": "WithValue", "IsVariableName": "WithVariableName"},
		refused: []string{"WithVariableName"},
	},
	"scripts/base/parsers.OperationBuilder": {
		need:  [][]string{{"WithElement"}},
		gives: map[string]string{"WithElement": "Element", "WithSuffix": "Suffix"},
		tells: map[string]string{"HasSuffix": "WithSuffix"},
	},
	"scripts/base/parsers.OperationSuffixBuilder": {
		need:  [][]string{{"WithElement", "WithOperator"}},
		gives: map[string]string{"WithElement": "Element", "WithOperator": "Operator"},
		kept:  []string{"WithOperator"},
	},
	"scripts/base/parsers.OperatonElementBuilder": {
		need:  [][]string{{"WithBoolValue"}, {"WithComputableValue"}, {"WithFuncCall"}, {"WithOperation"}, {"WithVariableName"}},
		one:   []string{"WithBoolValue", "WithComputableValue", "WithFuncCall", "WithOperation", "WithVariableName"},
		gives: map[string]string{"WithBoolValue": "BoolValue", "WithComputableValue": "ComputableValue", "WithFuncCall": "FuncCall", "WithOperation": "Operation", "WithVariableName": "VariableName"},
		tells: map[string]string{"IsBoolValue": "WithBoolValue", "IsComputableValue": "WithComputableValue", "IsFuncCall": "WithFuncCall", "IsOperation": "WithOperation", "IsVariableName": "WithVariableName"},
		kept:  []string{"WithBoolValue"},
	},
	"scripts/base/parsers.OperationFuncCallBuilder": {
		need:  [][]string{{"WithNull"}},
		gives: map[string]string{"WithNull": "Null"},
		tells: map[string]string{"IsNull": "WithNull"},
	},
	"scripts/base/parsers.VariableDeclarationsBuilder": {
		need:    [][]string{{"WithDeclarations"}},
		gives:   map[string]string{"WithDeclarations": "All"},
		refused: []string{"WithDeclarations"},
	},
	"scripts/base/parsers.VariableDeclarationBuilder": {
		need:    [][]string{{"WithName", "WithType"}},
		gives:   map[string]string{"WithName": "Name", "WithType": "Type"},
		refused: []string{"WithName"},
	},
	"scripts/base/parsers.ValueBuilder": {custom: true},
	"scripts/base/parsers.TypeBuilder": {
		need:  [][]string{{"WithFlag"}},
		gives: map[string]string{"WithDept": "Dept", "WithFlag": "Flag"},
		kept:  []string{"WithDept", "WithFlag"},
	},
	"lexers/containers/tokens.Builder": {
		need:    [][]string{{"WithTokens"}},
		gives:   map[string]string{"WithTokens": "All"},
		refused: []string{"WithTokens"},
	},
	"lexers/containers/tokens.TokenBuilder": {
		need:    [][]string{{"WithBlock", "WithName"}},
		gives:   map[string]string{"WithBlock": "Block", "WithName": "Name", "WithTestSuite": "TestSuite"},
		tells:   map[string]string{"HasTestSuite": "WithTestSuite"},
		refused: []string{"WithName"},
	},
	"lexers/containers/tokens.TestSuiteBuilder": {
		need:    [][]string{{"WithLines"}},
		gives:   map[string]string{"WithLines": "Lines"},
		refused: []string{"WithLines"},
	},
	"lexers/containers/tokens.LinesBuilder": {
		need:    [][]string{{"WithLines"}},
		gives:   map[string]string{"WithLines": "All"},
		refused: []string{"WithLines"},
	},
	"lexers/containers/tokens.LineBuilder": {
		need:    [][]string{{"WithInstructions"}},
		gives:   map[string]string{"WithInstructions": "Instructions"},
		refused: []string{"WithInstructions"},
	},
	"lexers/containers/tokens.BlockBuilder": {
		need:  [][]string{{"WithMust"}},
		gives: map[string]string{"WithMust": "Must", "WithNot": "Not"},
		tells: map[string]string{"HasNot": "WithNot"},
	},
	"lexers/containers/tokens.InstructionBuilder": {
		need:  [][]string{{"IsChannelSwitch"}, {"WithElement"}},
		one:   []string{"IsChannelSwitch", "WithElement"},
		gives: map[string]string{"WithElement": "Element"},
		tells: map[string]string{"IsChannelSwitch": "IsChannelSwitch", "IsElement": "WithElement"},
	},
	"lexers/containers/tokens.ElementBuilder": {
		need:    [][]string{{"WithCode", "WithContent"}},
		gives:   map[string]string{"WithCardinality": "Cardinality", "WithCode": "Code", "WithContent": "Content"},
		tells:   map[string]string{"HasCardinality": "WithCardinality"},
		refused: []string{"WithCode"},
	},
	"lexers/containers/tokens.ContentBuilder": {
		need:  [][]string{{"WithRule"}, {"WithToken"}},
		one:   []string{"WithRule", "WithToken"},
		gives: map[string]string{"WithRule": "Rule", "WithToken": "Token"},
		tells: map[string]string{"IsRule": "WithRule", "IsToken": "WithToken"},
	},
	"lexers/containers/tokens.TokenReferenceBuilder": {
		need:    [][]string{{"WithName"}},
		gives:   map[string]string{"WithName": "Name", "WithSpecifiers": "Specifiers"},
		tells:   map[string]string{"HasSpecifiers": "WithSpecifiers"},
		refused: []string{"WithName"},
	},
	"lexers/containers/tokens.TokenSpecifiersBuilder": {
		need:    [][]string{{"WithTokenSpecifiers"}},
		gives:   map[string]string{"WithTokenSpecifiers": "All"},
		refused: []string{"WithTokenSpecifiers"},
	},
	"lexers/containers/tokens.TokenSpecifierBuilder": {
		need:  [][]string{{"WithCardinality", "WithContent"}},
		gives: map[string]string{"WithCardinality": "Cardinality", "WithContent": "Content"},
	},
	"lexers/containers/tokens.TokenSpecifierContentBuilder": {
		need:    [][]string{{"WithRule"}, {"WithToken"}},
		one:     []string{"WithRule", "WithToken"},
		gives:   map[string]string{"WithRule": "Rule", "WithToken": "Token"},
		tells:   map[string]string{"IsRule": "WithRule", "IsToken": "WithToken"},
		refused: []string{"WithToken"},
	},
	"lexers/containers/patterns.Builder": {
		need:    [][]string{{"WithList"}},
		gives:   map[string]string{"WithList": "All"},
		refused: []string{"WithList"},
	},
	"lexers/containers/patterns.PatternBuilder": {
		need:    [][]string{{"WithList", "WithName"}},
		gives:   map[string]string{"WithName": "Name"},
		refused: []string{"WithList", "WithName"},
	},
	"lexers/containers/patterns.ChoiceBuilder": {
		need:  [][]string{{"WithSerie"}},
		gives: map[string]string{"WithSerie": "Serie"},
		tells: map[string]string{"IsReverse": "IsReverse"},
	},
	"lexers/containers/patterns.SerieBuilder": {
		need:    [][]string{{"WithList", "WithName"}},
		gives:   map[string]string{"WithName": "Name"},
		refused: []string{"WithList", "WithName"},
	},
	"lexers/containers/patterns.GroupsBuilder": {
		need:    [][]string{{"WithList"}},
		gives:   map[string]string{"WithList": "All"},
		refused: []string{"WithList"},
	},
	"lexers/containers/patterns.GroupBuilder": {
		need:    [][]string{{"WithList", "WithName"}},
		gives:   map[string]string{"WithName": "Name"},
		refused: []string{"WithList", "WithName"},
	},
	"lexers/containers/patterns.ResultBuilder": {
		need:    [][]string{{"WithDiscoveries", "WithInput"}},
		gives:   map[string]string{"WithDiscoveries": "Discoveries", "WithInput": "Input", "WithNext": "Next", "WithRemaining": "Remaining"},
		tells:   map[string]string{"HasNext": "WithNext", "HasRemaining": "WithRemaining"},
		refused: []string{"WithInput"},
		absent:  []string{"WithRemaining"},
	},
	"lexers/containers/patterns.NextBuilder": {
		need:  [][]string{{"WithGroup"}},
		gives: map[string]string{"WithGroup": "Group"},
		tells: map[string]string{"IsReverse": "IsReverse"},
	},
	"lexers/containers/patterns.DiscoveriesBuilder": {
		need:    [][]string{{"WithList"}},
		gives:   map[string]string{"WithList": "All"},
		refused: []string{"WithList"},
	},
	"lexers/containers/patterns.DiscoveryBuilder": {
		need:    [][]string{{"WithContainer", "WithContent", "WithIndex"}},
		gives:   map[string]string{"WithContainer": "Container", "WithContent": "Content", "WithIndex": "Index"},
		refused: []string{"WithContent"},
		kept:    []string{"WithIndex"},
	},
	"lexers/containers/patterns.ContainerBuilder": {
		need:  [][]string{{"WithGroup"}, {"WithReverse"}},
		one:   []string{"WithGroup", "WithReverse"},
		gives: map[string]string{"WithGroup": "Group", "WithReverse": "Reverse"},
		tells: map[string]string{"IsGroup": "WithGroup", "IsReverse": "WithReverse"},
	},
	"lexers/containers/rules.Builder": {
		need:    [][]string{{"WithRules"}},
		gives:   map[string]string{"WithRules": "All"},
		refused: []string{"WithRules"},
	},
	"lexers/containers/rules.RuleBuilder": {
		need:    [][]string{{"WithCode", "WithElement", "WithName"}},
		gives:   map[string]string{"WithCode": "Code", "WithElement": "Element", "WithName": "Name"},
		refused: []string{"WithCode", "WithName"},
	},
	"lexers/containers/rules.ElementBuilder": {
		need:    [][]string{{"WithCode", "WithContent"}},
		gives:   map[string]string{"WithCode": "Code", "WithContent": "Content"},
		refused: []string{"WithCode"},
	},
	"lexers/containers/rules.ContentBuilder": {
		need:   [][]string{{}}, // the constant of a rule can be empty
		one:    []string{"WithConstant", "WithPattern"},
		gives:  map[string]string{"WithConstant": "Constant", "WithPattern": "Pattern"},
		tells:  map[string]string{"IsConstant": "WithConstant", "IsPattern": "WithPattern"},
		absent: []string{"WithConstant"},
	},
	"lexers/containers/rules.PatternBuilder": {
		need:  [][]string{{"WithCardinality", "WithSubPatterns"}},
		gives: map[string]string{"WithCardinality": "Cardinality", "WithSubPatterns": "SubPatterns"},
	},
	"lexers/cardinality.Builder": {
		need:  [][]string{{"IsMandatory"}, {"IsNonZeroMultiple"}, {"IsOptional"}, {"IsZeroMultiple"}, {"WithSpecific"}},
		one:   []string{"IsMandatory", "IsNonZeroMultiple", "IsOptional", "IsZeroMultiple", "WithSpecific"},
		gives: map[string]string{"WithSpecific": "Specific"},
		tells: map[string]string{"IsMandatory": "IsMandatory", "IsNonZeroMultiple": "IsNonZeroMultiple", "IsOptional": "IsOptional", "IsSpecific": "WithSpecific", "IsZeroMultiple": "IsZeroMultiple"},
	},
	"lexers/cardinality.SpecificBuilder": {
		need:    [][]string{{"WithAmount"}, {"WithRange"}},
		one:     []string{"WithAmount", "WithRange"},
		gives:   map[string]string{"WithAmount": "Amount", "WithRange": "Range"},
		tells:   map[string]string{"IsAmount": "WithAmount", "IsRange": "WithRange"},
		refused: []string{"WithAmount"},
	},
	"lexers/cardinality.RangeBuilder": {
		need:  [][]string{{}},
		gives: map[string]string{"WithMaximum": "Max", "WithMinimum": "Min"},
		tells: map[string]string{"HasMax": "WithMaximum"},
		kept:  []string{"WithMaximum", "WithMinimum"},
	},
	"lexers/contents.Builder": {
		need:    [][]string{{"WithContent"}},
		gives:   map[string]string{"WithContent": "Content"},
		tells:   map[string]string{"IsPrefixLegal": "IsPrefixLegal", "IsSuffixLegal": "IsSuffixLegal"},
		refused: []string{"WithContent"},
	},
	"lexers/paths.Builder": {
		need:    [][]string{{"WithRules", "WithTokens"}},
		gives:   map[string]string{"WithChannels": "Channels", "WithRules": "Rules", "WithTokens": "Tokens"},
		tells:   map[string]string{"HasChannels": "WithChannels"},
		refused: []string{"WithRules", "WithTokens"},
		absent:  []string{"WithChannels"},
	},
	"lexers/references/links.Builder": {
		need:    [][]string{{"WithLinks"}},
		gives:   map[string]string{"WithLinks": "All"},
		refused: []string{"WithLinks"},
	},
	"lexers/references/links.LinkBuilder": {
		need:    [][]string{{"WithInclude", "WithLocalToken", "WithReferenceToken"}},
		gives:   map[string]string{"WithInclude": "Include", "WithLocalToken": "LocalToken", "WithReferenceToken": "ReferenceToken"},
		refused: []string{"WithLocalToken", "WithReferenceToken"},
	},
	"lexers/references/links.IncludeBuilder": {
		need:    [][]string{{"WithName", "WithPaths"}},
		gives:   map[string]string{"WithName": "Name", "WithPaths": "Paths"},
		refused: []string{"WithName"},
	},
	"lexers/references.Builder": {
		need:  [][]string{{}},
		gives: map[string]string{"WithReferences": "References", "WithReplacements": "Replacements"},
		tells: map[string]string{"HasReferences": "WithReferences", "HasReplacements": "WithReplacements"},
	},
	"lexers/suites.Builder": {
		need:    [][]string{{"WithLines", "WithName"}},
		gives:   map[string]string{"WithLines": "Lines", "WithName": "Name"},
		refused: []string{"WithLines", "WithName"},
	},
	"lexers/suites.LineBuilder": {
		need:  [][]string{{"WithIndex"}},
		gives: map[string]string{"WithIndex": "Index"},
		tells: map[string]string{"IsSuccess": "IsSuccessful"},
		kept:  []string{"WithIndex"},
	},
	"lexers/asts/mistakes.Builder": {
		need:  [][]string{{"WithContent", "WithIndex", "WithPath"}},
		gives: map[string]string{"WithContent": "Content", "WithIndex": "Index", "WithPath": "Path"},
	},
	"lexers/asts/mistakes.IndexBuilder": {
		need:  [][]string{{"WithColumn", "WithIndex", "WithLine"}},
		gives: map[string]string{"WithColumn": "Column", "WithIndex": "Index", "WithLine": "Line"},
		kept:  []string{"WithColumn", "WithIndex", "WithLine"},
	},
	"lexers/asts/mistakes.PathBuilder": {
		need:    [][]string{{"WithRule"}, {"WithToken"}},
		one:     []string{"WithRule", "WithToken"},
		gives:   map[string]string{"WithParents": "Parents"},
		tells:   map[string]string{"HasParents": "WithParents"},
		refused: []string{"WithRule", "WithToken"},
		absent:  []string{"WithParents"},
	},
	"lexers/asts/mistakes.ContentBuilder": {
		need:  [][]string{{"IsTokenHasNoMatch"}, {"WithCardinalityIsInvalid"}, {"WithContainsNextElement"}, {"WithContainsPrefix"}, {"WithContainsValidNotMatch"}, {"WithSpecifierDoNotMatch"}},
		one:   []string{"IsTokenHasNoMatch", "WithCardinalityIsInvalid", "WithContainsNextElement", "WithContainsPrefix", "WithContainsValidNotMatch", "WithSpecifierDoNotMatch"},
		gives: map[string]string{"WithCardinalityIsInvalid": "CardinalityIsInvalid", "WithContainsNextElement": "ContainsNextElement", "WithContainsPrefix": "ContainsPrefix", "WithContainsValidNotMatch": "ContainsValidNotMatch", "WithSpecifierDoNotMatch": "SpecifierDoNotMatch"},
		tells: map[string]string{"IsCardinalityIsInvalid": "WithCardinalityIsInvalid", "IsContainsNextElement": "WithContainsNextElement", "IsContainsPrefix": "WithContainsPrefix", "IsContainsValidNotMatch": "WithContainsValidNotMatch", "IsSpecifierDoNotMatch": "WithSpecifierDoNotMatch", "IsTokenHasNoMatch": "IsTokenHasNoMatch"},
	},
	"lexers/asts/mistakes.ContainsValidNotMatchBuilder": {
		need:  [][]string{{"WithLine"}},
		gives: map[string]string{"WithLine": "Line"},
		kept:  []string{"WithLine"},
	},
	"lexers/asts/mistakes.SpecifierDoNotMatchBuilder": {
		need:    [][]string{{"WithAmount", "WithCardinality", "WithContainerName"}},
		gives:   map[string]string{"WithAmount": "Amount", "WithCardinality": "Cardinality", "WithContainerName": "ContainerName"},
		refused: []string{"WithContainerName"},
		kept:    []string{"WithAmount"},
	},
	"lexers/asts/mistakes.ContainsNextElementBuilder": {
		need:  [][]string{{"WithNextElement"}},
		gives: map[string]string{"WithNextElement": "NextElement"},
	},
	"lexers/asts/mistakes.CardinalityIsInvalidBuilder": {
		need:  [][]string{{"WithAmount", "WithCardinality"}},
		gives: map[string]string{"WithAmount": "Amount", "WithCardinality": "Cardinality"},
		kept:  []string{"WithAmount"},
	},
	"lexers/asts/mistakes.ContainsPrefixBuilder": {
		need:    [][]string{{"WithPrefix"}},
		gives:   map[string]string{"WithPrefix": "Prefix"},
		refused: []string{"WithPrefix"},
	},
	"lexers/roots.Builder": {
		need:    [][]string{{"WithContent", "WithName", "WithNodes"}},
		gives:   map[string]string{"WithContent": "Content", "WithName": "Name", "WithNodes": "Nodes"},
		refused: []string{"WithContent", "WithName"},
	},
	"lexers/roots.NodesBuilder": {
		need:    [][]string{{"WithNodes"}},
		gives:   map[string]string{"WithNodes": "All"},
		refused: []string{"WithNodes"},
	},
	"lexers/roots.NodeBuilder": {
		need:    [][]string{{"WithContainers", "WithName"}},
		gives:   map[string]string{"WithContainers": "Containers", "WithName": "Name"},
		refused: []string{"WithName"},
	},
	"lexers/roots.ContainersBuilder": {
		need:    [][]string{{"WithList"}},
		gives:   map[string]string{"WithList": "List"},
		refused: []string{"WithList"},
	},
	"lexers/roots.ContainerBuilder": {
		need:    [][]string{{"WithContent", "WithName"}},
		gives:   map[string]string{"WithContent": "Content", "WithName": "Name", "WithRoot": "Root"},
		tells:   map[string]string{"HasRoot": "WithRoot"},
		refused: []string{"WithContent", "WithName"},
	},
	"lexers/asts/tokens.NextElementBuilder": {
		need:    [][]string{{"WithConstant"}, {"WithPattern"}},
		one:     []string{"WithConstant", "WithPattern"},
		gives:   map[string]string{"WithConstant": "Constant", "WithPattern": "Pattern"},
		tells:   map[string]string{"IsConstant": "WithConstant", "IsPattern": "WithPattern"},
		refused: []string{"WithConstant"},
	},
	"lexers/asts.Builder": {
		need:  [][]string{{"WithMistake"}, {"WithSuccess"}},
		one:   []string{"WithMistake", "WithSuccess"},
		gives: map[string]string{"WithMistake": "Mistake", "WithSuccess": "Success"},
		tells: map[string]string{"IsMistake": "WithMistake", "IsSuccess": "WithSuccess"},
	},
	"lexers/asts.TokenBuilder": {
		need:    [][]string{{"WithName", "WithMatch"}},
		gives:   map[string]string{"WithMatch": "Match", "WithName": "Name"},
		refused: []string{"WithName"},
	},
	"lexers/asts.LineMatchBuilder": {
		need:   [][]string{{"WithIndex"}},
		gives:  map[string]string{"WithIndex": "Index", "WithMatches": "Matches"},
		tells:  map[string]string{"HasMatches": "WithMatches"},
		absent: []string{"WithMatches"},
		kept:   []string{"WithIndex"},
	},
	"lexers/asts.MatchBuilder": {
		need:  [][]string{{"WithToken"}, {"WithRule"}},
		one:   []string{"WithToken", "WithRule"},
		gives: map[string]string{"WithRule": "Rule", "WithToken": "Token"},
		tells: map[string]string{"IsRule": "WithRule", "IsToken": "WithToken"},
	},
	"lexers/asts.TokenMatchBuilder": {
		need:    [][]string{{"WithToken", "WithMatches"}},
		gives:   map[string]string{"WithMatches": "Matches", "WithToken": "Token"},
		refused: []string{"WithToken", "WithMatches"},
	},
	"lexers/asts.RuleMatchBuilder": {
		need:    [][]string{{"WithRule", "WithResult"}},
		gives:   map[string]string{"WithResult": "Result", "WithRule": "Rule"},
		refused: []string{"WithRule"},
	},
	"lexers/asts.ResultBuilder": {
		need:    [][]string{{"WithInput", "WithDiscoveries"}},
		gives:   map[string]string{"WithDiscoveries": "Discoveries", "WithInput": "Input", "WithPrefix": "Prefix", "WithSuffix": "Suffix"},
		tells:   map[string]string{"HasPrefix": "WithPrefix", "HasSuffix": "WithSuffix"},
		refused: []string{"WithInput"},
		absent:  []string{"WithPrefix", "WithSuffix"},
	},
	"lexers/asts/results.Builder": {
		need:  [][]string{{"WithInput"}},
		gives: map[string]string{"WithInput": "Input", "WithMatches": "Matches.List"},
		tells: map[string]string{"HasMatches": "WithMatches"},
	},
	"lexers/asts/tokens.Builder": {
		need:    [][]string{{"WithName", "WithPath"}},
		gives:   map[string]string{"WithContent": "Content", "WithName": "Name", "WithPath": "Path"},
		tells:   map[string]string{"HasContent": "WithContent"},
		refused: []string{"WithName"},
	},
	"lexers/asts/tokens.TokenContentBuilder": {
		need:  [][]string{{"WithMust"}},
		gives: map[string]string{"WithMust": "Must", "WithNot": "Not"},
		tells: map[string]string{"HasNot": "WithNot"},
	},
	"lexers/asts/tokens.LineMatchBuilder": {
		need:  [][]string{{"WithIndex", "WithMatches"}},
		gives: map[string]string{"WithIndex": "Index", "WithMatches": "Matches"},
		kept:  []string{"WithIndex"},
	},
	"lexers/asts/tokens.MatchesBuilder": {
		need:    [][]string{{"WithList"}},
		gives:   map[string]string{"WithList": "BlockMatches"},
		refused: []string{"WithList"},
	},
	"lexers/asts/tokens.BlockMatchBuilder": {
		need:  [][]string{{"WithContainer"}, {"WithBlock"}, {"WithNextElement"}},
		one:   []string{"WithContainer", "WithBlock", "WithNextElement"},
		gives: map[string]string{"WithBlock": "Content.Block", "WithChannelPrefix": "ChannelPrefix", "WithContainer": "Content.Container", "WithNextElement": "Content.NextElement"},
		tells: map[string]string{"Content.IsBlock": "WithBlock", "Content.IsContainer": "WithContainer", "Content.IsNextElement": "WithNextElement", "HasChannelPrefix": "WithChannelPrefix"},
	},
	"lexers/asts/tokens.MatchBuilder": {
		need:  [][]string{{"WithToken"}, {"WithRule"}, {"WithSkip"}, {"WithLine"}},
		one:   []string{"WithToken", "WithRule", "WithSkip", "WithLine"},
		gives: map[string]string{"WithLine": "Content.Line", "WithRule": "Content.Rule", "WithSkip": "Content.Skip", "WithToken": "Content.Token"},
		tells: map[string]string{"Content.IsLine": "WithLine", "Content.IsRule": "WithRule", "Content.IsSkip": "WithSkip", "Content.IsToken": "WithToken"},
	},
	"lexers/asts/tokens.SkipMatchBuilder": {
		need:  [][]string{{"WithToken"}, {"WithRule"}},
		one:   []string{"WithToken", "WithRule"},
		gives: map[string]string{"WithRule": "Content.Rule", "WithToken": "Content.Token"},
		tells: map[string]string{"Content.IsRule": "WithRule", "Content.IsToken": "WithToken"},
	},
	"lexers/asts/tokens.TokenMatchBuilder": {
		need:   [][]string{{"WithPath", "WithResult"}},
		gives:  map[string]string{"WithPath": "Path", "WithResult": "Result", "WithSpecifiers": "Specifiers"},
		tells:  map[string]string{"HasSpecifiers": "WithSpecifiers"},
		absent: []string{"WithSpecifiers"},
	},
	"lexers/asts/tokens.SpecifierBuilder": {
		need:    [][]string{{"WithContainerName", "WithCardinality", "WithResult"}},
		gives:   map[string]string{"WithCardinality": "Cardinality", "WithContainerName": "ContainerName", "WithResult": "Result"},
		refused: []string{"WithContainerName"},
	},
	"lexers/asts/tokens.TokenResultBuilder": {
		need:    [][]string{{"WithInput", "WithCardinality"}},
		gives:   map[string]string{"WithCardinality": "Cardinality", "WithInput": "Input", "WithMatches": "Matches"},
		tells:   map[string]string{"HasMatches": "WithMatches"},
		refused: []string{"WithInput"},
	},
	"lexers/asts/tokens.TokenResultMatchesBuilder": {
		need:    [][]string{{"WithResults"}},
		gives:   map[string]string{"WithResults": "All"},
		refused: []string{"WithResults"},
	},
	"lexers/asts/tokens.RuleMatchBuilder": {
		need:  [][]string{{"WithRule", "WithResult"}},
		gives: map[string]string{"WithResult": "Result", "WithRule": "Rule"},
		tells: map[string]string{"CanHavePrefix": "CanContainPrefix"},
	},
	"lexers/asts/tokens.RuleMatchResultBuilder": {
		need:  [][]string{{"WithPath", "WithResult"}},
		gives: map[string]string{"WithPath": "Path", "WithResult": "Result"},
	},
	"lexers/asts/tokens.ResultBuilder": {
		need:   [][]string{{}},
		gives:  map[string]string{"WithResults": "Results"},
		tells:  map[string]string{"HasResults": "WithResults"},
		absent: []string{"WithResults"},
	},
	"lexers/asts/paths.Builder": {
		need:  [][]string{{"WithDependencies", "WithElement"}},
		gives: map[string]string{"WithDependencies": "Dependencies", "WithElement": "Element"},
	},
	"lexers/asts/paths.ElementBuilder": {
		need:    [][]string{{"WithMust", "WithName"}},
		gives:   map[string]string{"WithMust": "Must", "WithName": "Name", "WithNot": "Not"},
		tells:   map[string]string{"HasNot": "WithNot"},
		refused: []string{"WithMust", "WithName"},
		absent:  []string{"WithNot"},
	},
	"lexers/asts/paths.DependenciesBuilder": {
		need: [][]string{{}},
		kept: []string{"WithDependencies"},
	},
	"lexers/asts/paths.LineBuilder": {
		need:    [][]string{{"WithInstructions"}},
		gives:   map[string]string{"WithInstructions": "Instructions"},
		refused: []string{"WithInstructions"},
	},
	"lexers/asts/paths.InstructionBuilder": {
		need:  [][]string{{"IsChannelSwitch"}, {"WithContainer"}},
		one:   []string{"IsChannelSwitch", "WithContainer"},
		gives: map[string]string{"WithContainer": "Container"},
		tells: map[string]string{"IsChannelSwitch": "IsChannelSwitch", "IsContainer": "WithContainer"},
	},
	"lexers/asts/paths.ContainerBuilder": {
		need:    [][]string{{"WithLines"}, {"WithRecursive"}, {"WithRule"}, {"WithToken"}},
		one:     []string{"WithLines", "WithRecursive", "WithRule", "WithToken"},
		gives:   map[string]string{"WithLines": "Lines", "WithRecursive": "Recursive", "WithRule": "Rule", "WithToken": "Token"},
		tells:   map[string]string{"IsLines": "WithLines", "IsRecursive": "WithRecursive", "IsRule": "WithRule", "IsToken": "WithToken"},
		refused: []string{"WithLines"},
	},
	"lexers/asts/paths.RecursiveTokenBuilder": {
		need:    [][]string{{"WithCardinality", "WithName"}},
		gives:   map[string]string{"WithCardinality": "Cardinality", "WithName": "Name", "WithSpecifiers": "Specifiers"},
		tells:   map[string]string{"HasSpecifiers": "WithSpecifiers"},
		refused: []string{"WithName"},
		absent:  []string{"WithSpecifiers"},
	},
	"lexers/asts/paths.TokenBuilder": {
		need:  [][]string{{"WithCardinality", "WithPath"}},
		gives: map[string]string{"WithCardinality": "Cardinality", "WithPath": "Path"},
	},
	"lexers/asts/paths.RuleBuilder": {
		need:  [][]string{{"WithBase", "WithCardinality"}},
		gives: map[string]string{"WithBase": "Base", "WithCardinality": "Cardinality"},
	},
	"lexers/asts/paths.TokenPathBuilder": {
		need:   [][]string{{"WithElement"}},
		gives:  map[string]string{"WithDependencies": "Dependencies", "WithElement": "Element", "WithSpecifiers": "Specifiers"},
		tells:  map[string]string{"HasDependencies": "WithDependencies", "HasSpecifiers": "WithSpecifiers"},
		absent: []string{"WithSpecifiers"},
	},
	"lexers/asts/paths.SpecifierBuilder": {
		need:    [][]string{{"WithCardinality", "WithContainerName"}},
		gives:   map[string]string{"WithCardinality": "Cardinality", "WithContainerName": "ContainerName"},
		refused: []string{"WithContainerName"},
	},
	"lexers/resources/containers.Builder": {
		need:    [][]string{{"WithPatterns", "WithRules", "WithTokens"}},
		gives:   map[string]string{"WithPatterns": "Patterns", "WithRules": "Rules", "WithTokens": "Tokens"},
		refused: []string{"WithPatterns", "WithRules", "WithTokens"},
	},
	"lexers/resources/multiples.Builder": {
		need:   [][]string{{"WithContainer"}},
		gives:  map[string]string{"WithChannels": "Channels", "WithContainer": "Container"},
		tells:  map[string]string{"HasChannels": "WithChannels"},
		absent: []string{"WithChannels"},
	},
	"lexers/resources/paths.Builder": {
		need:    [][]string{{"WithContainer", "WithRootToken"}},
		gives:   map[string]string{"WithContainer": "Container", "WithRootToken": "RootToken"},
		refused: []string{"WithRootToken"},
	},
	"lexers/resources/singles.Builder": {
		need:    [][]string{{"WithMultiple", "WithRootToken"}},
		gives:   map[string]string{"WithMultiple": "Multiple", "WithRootToken": "RootToken"},
		refused: []string{"WithRootToken"},
	},
	"parsers.ResultBuilder": {custom: true},
}
