{Caitlyn::Def::Null, 0, "Null"},
{Caitlyn::Def::StartOfHeading, 1, "StartOfHeading"},
{Caitlyn::Def::StartOfText, 2, "StartOfText"},
{Caitlyn::Def::EndOfText, 3, "EndOfText"},
{Caitlyn::Def::EndOfTransmission, 4, "EndOfTransmission"},
{Caitlyn::Def::Enquiry, 5, "Enquiry"},
{Caitlyn::Def::Acknowledge, 6, "Acknowledge"},
{Caitlyn::Def::Bell, 7, "Bell"},
{Caitlyn::Def::Backspace, 8, "Backspace"},
{Caitlyn::Def::CharacterTabulation, 9, "CharacterTabulation"},
{Caitlyn::Def::LineFeed, 10, "LineFeed"},
{Caitlyn::Def::LineTabulation, 11, "LineTabulation"},
{Caitlyn::Def::FormFeed, 12, "FormFeed"},
{Caitlyn::Def::CarriageReturn, 13, "CarriageReturn"},
{Caitlyn::Def::ShiftOut, 14, "ShiftOut"},
{Caitlyn::Def::ShiftIn, 15, "ShiftIn"},
{Caitlyn::Def::DataLinkEscape, 16, "DataLinkEscape"},
{Caitlyn::Def::DeviceControlOne, 17, "DeviceControlOne"},
{Caitlyn::Def::DeviceControlTwo, 18, "DeviceControlTwo"},
{Caitlyn::Def::DeviceControlThree, 19, "DeviceControlThree"},
{Caitlyn::Def::DeviceControlFour, 20, "DeviceControlFour"},
{Caitlyn::Def::NegativeAcknowledge, 21, "NegativeAcknowledge"},
{Caitlyn::Def::SynchronousIdle, 22, "SynchronousIdle"},
{Caitlyn::Def::EndOfTransmissionBlock, 23, "EndOfTransmissionBlock"},
{Caitlyn::Def::Cancel, 24, "Cancel"},
{Caitlyn::Def::EndOfMedium, 25, "EndOfMedium"},
{Caitlyn::Def::Substitute, 26, "Substitute"},
{Caitlyn::Def::Escape, 27, "Escape"},
{Caitlyn::Def::InformationSeparatorFour, 28, "InformationSeparatorFour"},
{Caitlyn::Def::InformationSeparatorThree, 29, "InformationSeparatorThree"},
{Caitlyn::Def::InformationSeparatorTwo, 30, "InformationSeparatorTwo"},
{Caitlyn::Def::InformationSeparatorOne, 31, "InformationSeparatorOne"},
{Caitlyn::Def::Space, 32, "Space"},
{Caitlyn::Def::ExclamationMark, 33, "ExclamationMark"},
{Caitlyn::Def::QuotationMark, 34, "QuotationMark"},
{Caitlyn::Def::NumberSign, 35, "NumberSign"},
{Caitlyn::Def::DollarSign, 36, "DollarSign"},
{Caitlyn::Def::PercentSign, 37, "PercentSign"},
{Caitlyn::Def::Ampersand, 38, "Ampersand"},
{Caitlyn::Def::Apostrophe, 39, "Apostrophe"},
{Caitlyn::Def::LeftParenthesis, 40, "LeftParenthesis"},
{Caitlyn::Def::RightParenthesis, 41, "RightParenthesis"},
{Caitlyn::Def::Asterisk, 42, "Asterisk"},
{Caitlyn::Def::PlusSign, 43, "PlusSign"},
{Caitlyn::Def::Comma, 44, "Comma"},
{Caitlyn::Def::HyphenMinus, 45, "HyphenMinus"},
{Caitlyn::Def::FullStop, 46, "FullStop"},
{Caitlyn::Def::Solidus, 47, "Solidus"},
{Caitlyn::Def::DigitZero, 48, "DigitZero"},
{Caitlyn::Def::DigitOne, 49, "DigitOne"},
{Caitlyn::Def::DigitTwo, 50, "DigitTwo"},
{Caitlyn::Def::DigitThree, 51, "DigitThree"},
{Caitlyn::Def::DigitFour, 52, "DigitFour"},
{Caitlyn::Def::DigitFive, 53, "DigitFive"},
{Caitlyn::Def::DigitSix, 54, "DigitSix"},
{Caitlyn::Def::DigitSeven, 55, "DigitSeven"},
{Caitlyn::Def::DigitEight, 56, "DigitEight"},
{Caitlyn::Def::DigitNine, 57, "DigitNine"},
{Caitlyn::Def::Colon, 58, "Colon"},
{Caitlyn::Def::Semicolon, 59, "Semicolon"},
{Caitlyn::Def::LessThanSign, 60, "LessThanSign"},
{Caitlyn::Def::EqualsSign, 61, "EqualsSign"},
{Caitlyn::Def::GreaterThanSign, 62, "GreaterThanSign"},
{Caitlyn::Def::QuestionMark, 63, "QuestionMark"},
{Caitlyn::Def::CommercialAt, 64, "CommercialAt"},
{Caitlyn::Def::LatinCapitalLetterA, 65, "LatinCapitalLetterA"},
{Caitlyn::Def::LatinCapitalLetterB, 66, "LatinCapitalLetterB"},
{Caitlyn::Def::LatinCapitalLetterC, 67, "LatinCapitalLetterC"},
{Caitlyn::Def::LatinCapitalLetterD, 68, "LatinCapitalLetterD"},
{Caitlyn::Def::LatinCapitalLetterE, 69, "LatinCapitalLetterE"},
{Caitlyn::Def::LatinCapitalLetterF, 70, "LatinCapitalLetterF"},
{Caitlyn::Def::LatinCapitalLetterG, 71, "LatinCapitalLetterG"},
{Caitlyn::Def::LatinCapitalLetterH, 72, "LatinCapitalLetterH"},
{Caitlyn::Def::LatinCapitalLetterI, 73, "LatinCapitalLetterI"},
{Caitlyn::Def::LatinCapitalLetterJ, 74, "LatinCapitalLetterJ"},
{Caitlyn::Def::LatinCapitalLetterK, 75, "LatinCapitalLetterK"},
{Caitlyn::Def::LatinCapitalLetterL, 76, "LatinCapitalLetterL"},
{Caitlyn::Def::LatinCapitalLetterM, 77, "LatinCapitalLetterM"},
{Caitlyn::Def::LatinCapitalLetterN, 78, "LatinCapitalLetterN"},
{Caitlyn::Def::LatinCapitalLetterO, 79, "LatinCapitalLetterO"},
{Caitlyn::Def::LatinCapitalLetterP, 80, "LatinCapitalLetterP"},
{Caitlyn::Def::LatinCapitalLetterQ, 81, "LatinCapitalLetterQ"},
{Caitlyn::Def::LatinCapitalLetterR, 82, "LatinCapitalLetterR"},
{Caitlyn::Def::LatinCapitalLetterS, 83, "LatinCapitalLetterS"},
{Caitlyn::Def::LatinCapitalLetterT, 84, "LatinCapitalLetterT"},
{Caitlyn::Def::LatinCapitalLetterU, 85, "LatinCapitalLetterU"},
{Caitlyn::Def::LatinCapitalLetterV, 86, "LatinCapitalLetterV"},
{Caitlyn::Def::LatinCapitalLetterW, 87, "LatinCapitalLetterW"},
{Caitlyn::Def::LatinCapitalLetterX, 88, "LatinCapitalLetterX"},
{Caitlyn::Def::LatinCapitalLetterY, 89, "LatinCapitalLetterY"},
{Caitlyn::Def::LatinCapitalLetterZ, 90, "LatinCapitalLetterZ"},
{Caitlyn::Def::LeftSquareBracket, 91, "LeftSquareBracket"},
{Caitlyn::Def::ReverseSolidus, 92, "ReverseSolidus"},
{Caitlyn::Def::RightSquareBracket, 93, "RightSquareBracket"},
{Caitlyn::Def::CircumflexAccent, 94, "CircumflexAccent"},
{Caitlyn::Def::LowLine, 95, "LowLine"},
{Caitlyn::Def::GraveAccent, 96, "GraveAccent"},
{Caitlyn::Def::LatinSmallLetterA, 97, "LatinSmallLetterA"},
{Caitlyn::Def::LatinSmallLetterB, 98, "LatinSmallLetterB"},
{Caitlyn::Def::LatinSmallLetterC, 99, "LatinSmallLetterC"},
{Caitlyn::Def::LatinSmallLetterD, 100, "LatinSmallLetterD"},
{Caitlyn::Def::LatinSmallLetterE, 101, "LatinSmallLetterE"},
{Caitlyn::Def::LatinSmallLetterF, 102, "LatinSmallLetterF"},
{Caitlyn::Def::LatinSmallLetterG, 103, "LatinSmallLetterG"},
{Caitlyn::Def::LatinSmallLetterH, 104, "LatinSmallLetterH"},
{Caitlyn::Def::LatinSmallLetterI, 105, "LatinSmallLetterI"},
{Caitlyn::Def::LatinSmallLetterJ, 106, "LatinSmallLetterJ"},
{Caitlyn::Def::LatinSmallLetterK, 107, "LatinSmallLetterK"},
{Caitlyn::Def::LatinSmallLetterL, 108, "LatinSmallLetterL"},
{Caitlyn::Def::LatinSmallLetterM, 109, "LatinSmallLetterM"},
{Caitlyn::Def::LatinSmallLetterN, 110, "LatinSmallLetterN"},
{Caitlyn::Def::LatinSmallLetterO, 111, "LatinSmallLetterO"},
{Caitlyn::Def::LatinSmallLetterP, 112, "LatinSmallLetterP"},
{Caitlyn::Def::LatinSmallLetterQ, 113, "LatinSmallLetterQ"},
{Caitlyn::Def::LatinSmallLetterR, 114, "LatinSmallLetterR"},
{Caitlyn::Def::LatinSmallLetterS, 115, "LatinSmallLetterS"},
{Caitlyn::Def::LatinSmallLetterT, 116, "LatinSmallLetterT"},
{Caitlyn::Def::LatinSmallLetterU, 117, "LatinSmallLetterU"},
{Caitlyn::Def::LatinSmallLetterV, 118, "LatinSmallLetterV"},
{Caitlyn::Def::LatinSmallLetterW, 119, "LatinSmallLetterW"},
{Caitlyn::Def::LatinSmallLetterX, 120, "LatinSmallLetterX"},
{Caitlyn::Def::LatinSmallLetterY, 121, "LatinSmallLetterY"},
{Caitlyn::Def::LatinSmallLetterZ, 122, "LatinSmallLetterZ"},
{Caitlyn::Def::LeftCurlyBracket, 123, "LeftCurlyBracket"},
{Caitlyn::Def::VerticalLine, 124, "VerticalLine"},
{Caitlyn::Def::RightCurlyBracket, 125, "RightCurlyBracket"},
{Caitlyn::Def::Tilde, 126, "Tilde"},
{Caitlyn::Def::Delete, 127, "Delete"},
