package h

// Code generated by gen.sh.

// All lists the harnesses by name.
var All = map[string]func(){
	"AccountNames":    AccountNames,
	"Again":           Again,
	"AgeDays":         AgeDays,
	"AgeFar":          AgeFar,
	"AgeMany":         AgeMany,
	"AgeOfMoney":      AgeOfMoney,
	"AllOptions":      AllOptions,
	"AllocationFiles": AllocationFiles,
	"Allocations":     Allocations,
	"AmountChars":     AmountChars,
	"AmountDigits":    AmountDigits,
	"AmountPadded":    AmountPadded,
	"AmountText":      AmountText,
	"BalanceFiltered": BalanceFiltered,
	"BalanceFlat":     BalanceFlat,
	"BalanceHiding":   BalanceHiding,
	"BalanceLayout":   BalanceLayout,
	"BalanceShown":    BalanceShown,
	"BalanceSums":     BalanceSums,
	"Balanced":        Balanced,
	"Budget":          Budget,
	"BudgetFar":       BudgetFar,
	"BudgetMonths":    BudgetMonths,
	"Columns":         Columns,
	"CrashArgs":       CrashArgs,
	"CrashBytes":      CrashBytes,
	"CrashFile":       CrashFile,
	"CrashInclude":    CrashInclude,
	"CrashLines":      CrashLines,
	"Current":         Current,
	"CurrentFar":      CurrentFar,
	"DateForms":       DateForms,
	"DateRange":       DateRange,
	"DeepTree":        DeepTree,
	"DisplayReports":  DisplayReports,
	"Elided":          Elided,
	"ElidedNames":     ElidedNames,
	"ErrorLine":       ErrorLine,
	"Extremes":        Extremes,
	"Filter":          Filter,
	"FilterLetters":   FilterLetters,
	"Filters":         Filters,
	"ForeignByte":     ForeignByte,
	"Forms":           Forms,
	"HeaderDate":      HeaderDate,
	"HeaderDays":      HeaderDays,
	"HugeAge":         HugeAge,
	"HugeBudget":      HugeBudget,
	"HugeSums":        HugeSums,
	"IncludeChain":    IncludeChain,
	"IncludeLine":     IncludeLine,
	"IncludeNames":    IncludeNames,
	"Includes":        Includes,
	"JournalNames":    JournalNames,
	"JournalSource":   JournalSource,
	"Layout":          Layout,
	"LongLines":       LongLines,
	"Many":            Many,
	"ManyFault":       ManyFault,
	"ManyFiles":       ManyFiles,
	"ManyKept":        ManyKept,
	"ManyRound":       ManyRound,
	"ManySame":        ManySame,
	"MissingValue":    MissingValue,
	"NearNames":       NearNames,
	"OddNames":        OddNames,
	"Overflow":        Overflow,
	"PayeeNames":      PayeeNames,
	"PeriodText":      PeriodText,
	"PostingLine":     PostingLine,
	"PostingTail":     PostingTail,
	"PrintDates":      PrintDates,
	"PrintFar":        PrintFar,
	"PrintFields":     PrintFields,
	"PrintMonths":     PrintMonths,
	"PrintOrder":      PrintOrder,
	"PrintPostings":   PrintPostings,
	"PrintRepeats":    PrintRepeats,
	"PrintTrailing":   PrintTrailing,
	"RangeFar":        RangeFar,
	"ReadOnly":        ReadOnly,
	"Repeatable":      Repeatable,
	"RoundAmounts":    RoundAmounts,
	"RoundDates":      RoundDates,
	"RoundFar":        RoundFar,
	"RoundFields":     RoundFields,
	"SelfTest":        SelfTest,
	"Shapes":          Shapes,
	"SmartDate":       SmartDate,
	"Smoke":           Smoke,
	"SmokeBytes":      SmokeBytes,
	"Statistics":      Statistics,
	"StatisticsFar":   StatisticsFar,
	"StatisticsMany":  StatisticsMany,
	"Twisted":         Twisted,
	"TwistedAgain":    TwistedAgain,
	"TwistedBetween":  TwistedBetween,
	"TwistedFault":    TwistedFault,
	"TwistedFiles":    TwistedFiles,
	"TwistedKept":     TwistedKept,
	"TwistedLayout":   TwistedLayout,
	"TwistedRound":    TwistedRound,
	"TwistedSelect":   TwistedSelect,
	"TwistedSum":      TwistedSum,
	"TwoElided":       TwoElided,
	"TwoTransactions": TwoTransactions,
	"UnknownCommand":  UnknownCommand,
	"UnknownOption":   UnknownOption,
}
