//go:build go1.21

package main

import (
	lppars "github.com/steve-care-software/steve/applications/languages/parsers"
	lasts "github.com/steve-care-software/steve/domain/languages/lexers/asts"
	lmistakes "github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	lastpaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	lresults "github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	lasttokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	lcard "github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	lpatterns "github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	lrules "github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	ltokens "github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	lcontents "github.com/steve-care-software/steve/domain/languages/lexers/contents"
	lxpaths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	lreferences "github.com/steve-care-software/steve/domain/languages/lexers/references"
	llinks "github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	lrcontainers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	lrmultiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	lrpaths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	lrsingles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	lroots "github.com/steve-care-software/steve/domain/languages/lexers/roots"
	lsuites "github.com/steve-care-software/steve/domain/languages/lexers/suites"
	bparsers "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

// partBuilders are the builders of all the parts.
var partBuilders = []struct {
	name string
	make interface{}
}{
	{"scripts/base/parsers.ProgramBuilder", bparsers.NewProgramBuilder},
	{"scripts/base/parsers.HeaderVariablesBuilder", bparsers.NewHeaderVariablesBuilder},
	{"scripts/base/parsers.HeaderVariableBuilder", bparsers.NewHeaderVariableBuilder},
	{"scripts/base/parsers.InstructionsBuilder", bparsers.NewInstructionsBuilder},
	{"scripts/base/parsers.InstructionBuilder", bparsers.NewInstructionBuilder},
	{"scripts/base/parsers.DirectionBuilder", bparsers.NewDirectionBuilder},
	{"scripts/base/parsers.VoidFuncCallBuilder", bparsers.NewVoidFuncCallBuilder},
	{"scripts/base/parsers.ForDeclarationBuilder", bparsers.NewForDeclarationBuilder},
	{"scripts/base/parsers.ForStatementBuilder", bparsers.NewForStatementBuilder},
	{"scripts/base/parsers.IfDeclarationBuilder", bparsers.NewIfDeclarationBuilder},
	{"scripts/base/parsers.IntIncrementBuilder", bparsers.NewIntIncrementBuilder},
	{"scripts/base/parsers.AssignmentBuilder", bparsers.NewAssignmentBuilder},
	{"scripts/base/parsers.AssigneeBuilder", bparsers.NewAssigneeBuilder},
	{"scripts/base/parsers.AssigneeNameFirstsBuilder", bparsers.NewAssigneeNameFirstsBuilder},
	{"scripts/base/parsers.AssigneeNameFirstBuilder", bparsers.NewAssigneeNameFirstBuilder},
	{"scripts/base/parsers.AssigneeNamesBuilder", bparsers.NewAssigneeNamesBuilder},
	{"scripts/base/parsers.AssigneeNameBuilder", bparsers.NewAssigneeNameBuilder},
	{"scripts/base/parsers.AssignablesBuilder", bparsers.NewAssignablesBuilder},
	{"scripts/base/parsers.AssignableBuilder", bparsers.NewAssignableBuilder},
	{"scripts/base/parsers.SingleAssignableBuilder", bparsers.NewSingleAssignableBuilder},
	{"scripts/base/parsers.ListFetchElementBuilder", bparsers.NewListFetchElementBuilder},
	{"scripts/base/parsers.TotalListValueBuilder", bparsers.NewTotalListValueBuilder},
	{"scripts/base/parsers.TotalListAssignableBuilder", bparsers.NewTotalListAssignableBuilder},
	{"scripts/base/parsers.ListValueBuilder", bparsers.NewListValueBuilder},
	{"scripts/base/parsers.AppendBuilder", bparsers.NewAppendBuilder},
	{"scripts/base/parsers.SliceBuilder", bparsers.NewSliceBuilder},
	{"scripts/base/parsers.SliceDelimiterBuilder", bparsers.NewSliceDelimiterBuilder},
	{"scripts/base/parsers.IndexValueBuilder", bparsers.NewIndexValueBuilder},
	{"scripts/base/parsers.OperationBuilder", bparsers.NewOperationBuilder},
	{"scripts/base/parsers.OperationSuffixBuilder", bparsers.NewOperationSuffixBuilder},
	{"scripts/base/parsers.OperatonElementBuilder", bparsers.NewOperatonElementBuilder},
	{"scripts/base/parsers.OperationFuncCallBuilder", bparsers.NewOperationFuncCallBuilder},
	{"scripts/base/parsers.VariableDeclarationsBuilder", bparsers.NewVariableDeclarationsBuilder},
	{"scripts/base/parsers.VariableDeclarationBuilder", bparsers.NewVariableDeclarationBuilder},
	{"scripts/base/parsers.ValueBuilder", bparsers.NewValueBuilder},
	{"scripts/base/parsers.TypeBuilder", bparsers.NewTypeBuilder},
	{"lexers/containers/tokens.Builder", ltokens.NewBuilder},
	{"lexers/containers/tokens.TokenBuilder", ltokens.NewTokenBuilder},
	{"lexers/containers/tokens.TestSuiteBuilder", ltokens.NewTestSuiteBuilder},
	{"lexers/containers/tokens.LinesBuilder", ltokens.NewLinesBuilder},
	{"lexers/containers/tokens.LineBuilder", ltokens.NewLineBuilder},
	{"lexers/containers/tokens.BlockBuilder", ltokens.NewBlockBuilder},
	{"lexers/containers/tokens.InstructionBuilder", ltokens.NewInstructionBuilder},
	{"lexers/containers/tokens.ElementBuilder", ltokens.NewElementBuilder},
	{"lexers/containers/tokens.ContentBuilder", ltokens.NewContentBuilder},
	{"lexers/containers/tokens.TokenReferenceBuilder", ltokens.NewTokenReferenceBuilder},
	{"lexers/containers/tokens.TokenSpecifiersBuilder", ltokens.NewTokenSpecifiersBuilder},
	{"lexers/containers/tokens.TokenSpecifierBuilder", ltokens.NewTokenSpecifierBuilder},
	{"lexers/containers/tokens.TokenSpecifierContentBuilder", ltokens.NewTokenSpecifierContentBuilder},
	{"lexers/containers/patterns.Builder", lpatterns.NewBuilder},
	{"lexers/containers/patterns.PatternBuilder", lpatterns.NewPatternBuilder},
	{"lexers/containers/patterns.ChoiceBuilder", lpatterns.NewChoiceBuilder},
	{"lexers/containers/patterns.SerieBuilder", lpatterns.NewSerieBuilder},
	{"lexers/containers/patterns.GroupsBuilder", lpatterns.NewGroupsBuilder},
	{"lexers/containers/patterns.GroupBuilder", lpatterns.NewGroupBuilder},
	{"lexers/containers/patterns.ResultBuilder", lpatterns.NewResultBuilder},
	{"lexers/containers/patterns.NextBuilder", lpatterns.NewNextBuilder},
	{"lexers/containers/patterns.DiscoveriesBuilder", lpatterns.NewDiscoveriesBuilder},
	{"lexers/containers/patterns.DiscoveryBuilder", lpatterns.NewDiscoveryBuilder},
	{"lexers/containers/patterns.ContainerBuilder", lpatterns.NewContainerBuilder},
	{"lexers/containers/rules.Builder", lrules.NewBuilder},
	{"lexers/containers/rules.RuleBuilder", lrules.NewRuleBuilder},
	{"lexers/containers/rules.ElementBuilder", lrules.NewElementBuilder},
	{"lexers/containers/rules.ContentBuilder", lrules.NewContentBuilder},
	{"lexers/containers/rules.PatternBuilder", lrules.NewPatternBuilder},
	{"lexers/cardinality.Builder", lcard.NewBuilder},
	{"lexers/cardinality.SpecificBuilder", lcard.NewSpecificBuilder},
	{"lexers/cardinality.RangeBuilder", lcard.NewRangeBuilder},
	{"lexers/contents.Builder", lcontents.NewBuilder},
	{"lexers/paths.Builder", lxpaths.NewBuilder},
	{"lexers/references/links.Builder", llinks.NewBuilder},
	{"lexers/references/links.LinkBuilder", llinks.NewLinkBuilder},
	{"lexers/references/links.IncludeBuilder", llinks.NewIncludeBuilder},
	{"lexers/references.Builder", lreferences.NewBuilder},
	{"lexers/suites.Builder", lsuites.NewBuilder},
	{"lexers/suites.LineBuilder", lsuites.NewLineBuilder},
	{"lexers/asts/mistakes.Builder", lmistakes.NewBuilder},
	{"lexers/asts/mistakes.IndexBuilder", lmistakes.NewIndexBuilder},
	{"lexers/asts/mistakes.PathBuilder", lmistakes.NewPathBuilder},
	{"lexers/asts/mistakes.ContentBuilder", lmistakes.NewContentBuilder},
	{"lexers/asts/mistakes.ContainsValidNotMatchBuilder", lmistakes.NewContainsValidNotMatchBuilder},
	{"lexers/asts/mistakes.SpecifierDoNotMatchBuilder", lmistakes.NewSpecifierDoNotMatchBuilder},
	{"lexers/asts/mistakes.ContainsNextElementBuilder", lmistakes.NewContainsNextElementBuilder},
	{"lexers/asts/mistakes.CardinalityIsInvalidBuilder", lmistakes.NewCardinalityIsInvalidBuilder},
	{"lexers/asts/mistakes.ContainsPrefixBuilder", lmistakes.NewContainsPrefixBuilder},
	{"lexers/roots.Builder", lroots.NewBuilder},
	{"lexers/roots.NodesBuilder", lroots.NewNodesBuilder},
	{"lexers/roots.NodeBuilder", lroots.NewNodeBuilder},
	{"lexers/roots.ContainersBuilder", lroots.NewContainersBuilder},
	{"lexers/roots.ContainerBuilder", lroots.NewContainerBuilder},
	{"lexers/asts/tokens.NextElementBuilder", lasttokens.NewNextElementBuilder},
	{"lexers/asts.Builder", lasts.NewBuilder},
	{"lexers/asts.TokenBuilder", lasts.NewTokenBuilder},
	{"lexers/asts.LineMatchBuilder", lasts.NewLineMatchBuilder},
	{"lexers/asts.MatchBuilder", lasts.NewMatchBuilder},
	{"lexers/asts.TokenMatchBuilder", lasts.NewTokenMatchBuilder},
	{"lexers/asts.RuleMatchBuilder", lasts.NewRuleMatchBuilder},
	{"lexers/asts.ResultBuilder", lasts.NewResultBuilder},
	{"lexers/asts/results.Builder", lresults.NewBuilder},
	{"lexers/asts/tokens.Builder", lasttokens.NewBuilder},
	{"lexers/asts/tokens.TokenContentBuilder", lasttokens.NewTokenContentBuilder},
	{"lexers/asts/tokens.LineMatchBuilder", lasttokens.NewLineMatchBuilder},
	{"lexers/asts/tokens.MatchesBuilder", lasttokens.NewMatchesBuilder},
	{"lexers/asts/tokens.BlockMatchBuilder", lasttokens.NewBlockMatchBuilder},
	{"lexers/asts/tokens.MatchBuilder", lasttokens.NewMatchBuilder},
	{"lexers/asts/tokens.SkipMatchBuilder", lasttokens.NewSkipMatchBuilder},
	{"lexers/asts/tokens.TokenMatchBuilder", lasttokens.NewTokenMatchBuilder},
	{"lexers/asts/tokens.SpecifierBuilder", lasttokens.NewSpecifierBuilder},
	{"lexers/asts/tokens.TokenResultBuilder", lasttokens.NewTokenResultBuilder},
	{"lexers/asts/tokens.TokenResultMatchesBuilder", lasttokens.NewTokenResultMatchesBuilder},
	{"lexers/asts/tokens.RuleMatchBuilder", lasttokens.NewRuleMatchBuilder},
	{"lexers/asts/tokens.RuleMatchResultBuilder", lasttokens.NewRuleMatchResultBuilder},
	{"lexers/asts/tokens.ResultBuilder", lasttokens.NewResultBuilder},
	{"lexers/asts/paths.Builder", lastpaths.NewBuilder},
	{"lexers/asts/paths.ElementBuilder", lastpaths.NewElementBuilder},
	{"lexers/asts/paths.DependenciesBuilder", lastpaths.NewDependenciesBuilder},
	{"lexers/asts/paths.LineBuilder", lastpaths.NewLineBuilder},
	{"lexers/asts/paths.InstructionBuilder", lastpaths.NewInstructionBuilder},
	{"lexers/asts/paths.ContainerBuilder", lastpaths.NewContainerBuilder},
	{"lexers/asts/paths.RecursiveTokenBuilder", lastpaths.NewRecursiveTokenBuilder},
	{"lexers/asts/paths.TokenBuilder", lastpaths.NewTokenBuilder},
	{"lexers/asts/paths.RuleBuilder", lastpaths.NewRuleBuilder},
	{"lexers/asts/paths.TokenPathBuilder", lastpaths.NewTokenPathBuilder},
	{"lexers/asts/paths.SpecifierBuilder", lastpaths.NewSpecifierBuilder},
	{"lexers/resources/containers.Builder", lrcontainers.NewBuilder},
	{"lexers/resources/multiples.Builder", lrmultiples.NewBuilder},
	{"lexers/resources/paths.Builder", lrpaths.NewBuilder},
	{"lexers/resources/singles.Builder", lrsingles.NewBuilder},
	{"parsers.ResultBuilder", lppars.NewResultBuilder},
}
