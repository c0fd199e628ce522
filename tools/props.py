#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py`."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop('C01', 'The journal is only ever appended to, and is the only file written',
     """The only change silverfox ever makes to the file system is to append text to the very journal file it was started on
     (never to an included file, the CSV file or the rules file). What was in the journal before a run is still there,
     byte for byte, afterwards. Every appended entry starts on a line of its own, whether or not the journal ended with a line break.""",
     ['inputs', 'histories', 'configurations'], 'every journal, include tree, CSV and rules file, command and flags',
     'No test writes a journal; losing or overwriting old text needs a particular journal ending, path or include layout.',
     ['src/ledger/mod.rs', 'src/flags.rs'],
     [('journal opened for appending with the path it was loaded from', 'src/ledger/mod.rs Ledger::append_entries'),
      ('path remembered once when loading', 'src/ledger/mod.rs Ledger::from_file')])

prop('C02', 'Without moving or importing, no file is touched',
     """When moving money is switched off (-n or --no-move) and the command is not import, a run changes no file at all.
     When moving is not switched off, every command first fills the envelopes of the loaded journal. A CSV file is only ever
     imported by the import command.""",
     ['inputs', 'configurations'], 'every journal, command and combination of flags',
     'No test runs a command; the guarantee is about the absence of an effect on every path.',
     ['src/flags.rs', 'src/ledger/mod.rs'],
     [('flag tested before filling', 'src/flags.rs CommandFlags::execute'), ('-n/--no-move', 'src/flags.rs CommandFlags::parse_from_env')])

prop('C03', 'A failure is never silent',
     """If any step of a run fails (an unknown flag or command, a file that cannot be read or written, a line, record, date or
     amount that cannot be understood, an entry that cannot be processed), the run stops there, prints a message on standard
     error and exits with a nonzero status. It never carries on as if the failing part were not there.""",
     ['inputs', 'fault_sequences'], 'every failing step of every run',
     'Tests sample a handful of failing inputs; each error path must be propagated by each caller.',
     ['src/main.rs', 'src/flags.rs', 'src/ledger/mod.rs', 'src/entry.rs', 'src/posting.rs', 'src/account.rs', 'src/envelope.rs', 'src/importer.rs', 'src/amount.rs'],
     [('errors returned up to main', 'src/main.rs main'), ('? and match on every fallible step', 'all parsers')])

prop('C04', 'Malformed text is an error message, never a crash',
     """No text in a journal, CSV file or rules file makes silverfox panic while it is read, processed or written back:
     whatever is malformed (missing words, stray brackets, multi-byte characters, wrong currencies) ends in an error message.
     In particular text is only cut at character boundaries, lists are only indexed at positions known to exist, nothing absent
     is unwrapped, amounts in different currencies are never added up, and a date format that cannot be written with is refused
     when it is read. (Not part of it: calendar arithmetic on extreme years, text wider than a terminal can be, includes that
     include themselves.)""",
     ['inputs'], 'every journal, CSV file and rules file',
     'A crash needs one particular odd line; tests cannot enumerate text.',
     ['src/entry.rs', 'src/posting.rs', 'src/account.rs', 'src/envelope.rs', 'src/importer.rs', 'src/amount.rs', 'src/utils.rs', 'src/ledger/mod.rs'],
     [('lengths and positions checked before use', 'all parsers')])

prop('C05', 'Nothing is written unless everything can be read back',
     """Before silverfox appends generated entries to the journal, every one of them has been read back from exactly the text
     about to be written and processed without error; if any of them fails, the journal is left untouched. An import is all or
     nothing: either every record of the CSV file (after the skipped ones) is appended, in order, or the file is unchanged.
     When filling envelopes yields no nonzero movement, nothing is written.""",
     ['inputs', 'histories', 'fault_sequences'], 'every journal, CSV file, rules file and failing record',
     'No test imports into a journal file; a partial import needs a failure in a later record.',
     ['src/ledger/mod.rs'],
     [('validate all, then one write', 'src/ledger/mod.rs Ledger::append_entries'), ('collect records first', 'src/ledger/mod.rs Ledger::import_csv')])

prop('C06', 'Every posting names an account defined before it',
     """An entry is accepted only if the account of every one of its postings, ordinary or envelope, has been defined in the
     journal before it (includes count where they stand); otherwise loading fails. The same holds for entries generated by import.""",
     ['inputs'], 'every entry of every journal or CSV import',
     'Tests use one set of accounts that always matches.',
     ['src/posting.rs', 'src/ledger/mod.rs', 'src/entry.rs', 'src/importer.rs'],
     [('membership test', 'src/posting.rs ClassicPosting::validate, EnvelopePosting::parse'), ('defined accounts handed over', 'src/ledger/mod.rs Ledger::parse_entry')])

prop('C07', 'An entry needs a date and a status, and statuses mean what they say',
     """An entry is accepted only if its first word is a date in the journal's format and its second word is exactly `?`, `~` or `*`.
     These stand for pending, cleared and reconciled both when read and when written, so a written status is read back as the same status.""",
     ['inputs'], 'every entry header',
     'Tests read one header.',
     ['src/entry.rs', 'src/importer.rs'],
     [('status tables', 'src/entry.rs EntryStatus'), ('header', 'src/entry.rs Entry::parse_header')])

prop('C08', 'Only balanced entries are accepted',
     """An entry whose ordinary postings all have amounts in one currency is accepted only if those amounts sum to zero, up to
     floating-point rounding. An entry with more than one blank ordinary posting, or with a blank posting beside amounts in more
     than one named currency, is rejected. Envelope postings play no part in this.""",
     ['inputs'], 'every entry of every journal',
     'Tests parse one balanced entry; the sum ranges over any number of postings.',
     ['src/entry.rs'], [('validation', 'src/entry.rs Entry::validate')])

prop('C09', 'A blank posting takes exactly what balances its entry',
     """The amount of a posting left blank is minus the sum of the other ordinary amounts of its entry, in their currency (with
     mixed currencies: minus the sum of their values in native currency: the amount itself if it has no symbol, times its unit cost,
     or its total cost as written; a posting without such a value is an error, never passed over). Balances, account values, envelopes and the register
     all use that amount for it, wherever the blank posting stands in the entry.""",
     ['inputs'], 'every entry with a blank posting, in every report',
     'No test infers a blank amount.',
     ['src/entry.rs', 'src/ledger/mod.rs', 'src/account.rs', 'src/envelope.rs', 'src/posting.rs'],
     [('inference', 'src/entry.rs Entry::get_blank_amount'), ('consumers', 'Ledger::get_totals, Account::process_entry, Envelope::infer, Entry::as_register_data')])

prop('C10', 'Amounts of different currencies are never mixed',
     """Amounts are only added to or subtracted from amounts of the same currency; a total keeps one amount for each currency,
     each the exact sum of what was added in it. An amount in another currency leaves the existing ones unchanged. Picking one currency
     out of a total, testing it for zero and showing it consider every amount in it; amounts are compared within one currency only.""",
     ['inputs', 'histories'], 'every sequence of amounts in any currencies',
     'No test adds amounts.',
     ['src/amount.rs'], [('symbol comparison', 'src/amount.rs AmountPool and Amount operators')])

prop('C11', 'Envelope postings never move real money',
     """Balances, account values and the register count ordinary postings only: removing every envelope posting from a journal
     changes none of them. Balances are, for each account, the sum of all ordinary postings to exactly that account.""",
     ['inputs', 'histories'], 'every journal',
     'No test computes balances.',
     ['src/ledger/mod.rs', 'src/account.rs', 'src/entry.rs'],
     [('envelope postings skipped', 'Ledger::get_totals, Account::process_entry, Entry::as_register_data')])

prop('C12', 'A manual envelope posting changes exactly the envelope it names',
     """A posting to an envelope changes the envelope of that name in that account, by its amount, and no other envelope; one
     in a currency other than the envelope's is an error. An entry with any envelope posting is never also used to infer
     envelope changes.""",
     ['inputs', 'histories'], 'every entry with envelope postings, every envelope',
     'No test processes an envelope posting.',
     ['src/envelope.rs', 'src/account.rs'], [('account and name compared', 'src/envelope.rs Envelope::process_manual_postings')])

prop('C13', 'Inferred envelope changes have the right size and sign',
     """For an entry without envelope postings, an envelope changes only if the entry touches both its own account and one of its
     linked accounts. The change is the smaller of the two absolute sums, negative exactly when money left the envelope's account,
     in the envelope's currency and on the entry's date; nothing else keeps it from being applied. A posting to one of these accounts
     counts with its amount, or with its value in native currency if the envelope is kept in it; if it has neither the entry is refused.""",
     ['inputs'], 'every entry and envelope',
     'No test infers envelope changes.',
     ['src/envelope.rs'], [('inference', 'src/envelope.rs Envelope::infer')])

prop('C14', 'Filling an envelope never overdraws, overfills or repeats',
     """Automatic filling never takes money out of an envelope. Aggressive funding moves all that is missing for the next due
     date, conservative funding what is missing divided by the days left, in both cases no more than is missing and no more than the
     account has available in the envelope's currency; the one exception is an overspent envelope (holding less than nothing), which is
     first brought back to nothing even beyond what is available. Envelopes with manual funding, without a next due date, or already
     changed today get nothing. The movement names the envelope itself and its currency and is dated today.""",
     ['inputs', 'histories'], 'every envelope, available amount and day',
     'No test fills an envelope; the bounds range over real numbers and dates.',
     ['src/envelope.rs'], [('clamps', 'src/envelope.rs Envelope::get_filling_amount')])

prop('C15', 'Envelopes of one account share its money in turn',
     """When the envelopes of an account are filled, each one sees what the account has left after the ones filled before it, so
     together they never move more than was available. Every envelope of every account gets its turn, goals before expenses and
     later defined ones first.""",
     ['inputs', 'histories'], 'every account with any number of envelopes',
     'No test fills an account with several envelopes.',
     ['src/account.rs', 'src/ledger/mod.rs'], [('running availability', 'src/account.rs Account::get_filling_postings')])

prop('C16', 'Available money is real money minus everything saved',
     """What an account has available is its real value minus what is saved, for now and for next, in every one of its envelopes.
     Money put into an envelope counts for the next due date unless dated before the last due date; money taken out is taken from what
     is ready now.""",
     ['inputs', 'histories'], 'every account, envelope and history of entries',
     'No test computes an available value.',
     ['src/account.rs', 'src/envelope.rs'], [('subtraction', 'src/account.rs Account::get_available_value'), ('application', 'src/envelope.rs Envelope::apply_amount')])

prop('C17', 'The same input gives the same output',
     """Run twice on the same files on the same day, silverfox prints the same text and appends the same text. Nothing printed or
     written depends on the iteration order of a hash table or on anything but the files, the command line, the environment variables naming
     the journal, the terminal width and today's date.""",
     ['inputs', 'schedules'], 'every input, every hash seed',
     'One run of a test sees one hash order; small sets often agree by luck.',
     ['src/ledger/mod.rs', 'src/importer.rs', 'src/entry.rs', 'src/envelope.rs', 'src/account.rs'],
     [('ordered maps and sorting', 'Ledger::display_flat_balance, Ledger::accounts, Rules')])

prop('C18', 'Entries are kept in date order and the register shows its range',
     """Whatever order entries are read in, they are reported in date order, and entries of the same date stay in the order they
     were read. The register considers exactly the entries with a posting (ordinary or envelope) to a selected account whose date is
     within the requested begin and end dates, both included; of these it leaves out only those whose ordinary postings to selected
     accounts add up to nothing.""",
     ['inputs', 'histories'], 'every journal and order of entries, every date range',
     'No test adds two entries.',
     ['src/ledger/mod.rs', 'src/ledger/register.rs'], [('stable sort', 'src/ledger/mod.rs Ledger::add_entry'), ('filter', 'src/ledger/register.rs Register::display')])

prop('C19', 'Paths in a journal are relative to that journal',
     """While a journal file is read, relative include paths resolve against the directory that file is in, at any depth of
     nesting; once it has been read, whether it succeeded or not, paths resolve as they did before. The journal path remembered
     for writing is the one given by the user.""",
     ['inputs', 'configurations'], 'every tree of includes and every working directory',
     'No test includes a file.',
     ['src/ledger/mod.rs'], [('working directory set and restored', 'src/ledger/mod.rs Ledger::add_from_file')])

prop('C20', 'Each CSV record becomes exactly one entry, by the first rules that match',
     """After skipping the configured number of records, every CSV record yields exactly one entry or an error, in file order. The first
     block of conditional rules with a pattern contained in the record, ignoring case, decides the rules; otherwise the general
     rules do. Date, status, description, payee, comment and one posting for each account rule are made from the deciding rules, with
     every `%field%` replaced by that column of the record. A single posting is completed by a blank posting to an unknown expense, income or other account according to its sign.""",
     ['inputs', 'configurations'], 'every CSV and rules file',
     'Tests import five records of one layout.',
     ['src/importer.rs'], [('records', 'src/importer.rs CsvImporter'), ('conditional rules', 'src/importer.rs Rules::get_entry_from_record, Subrules::applies_to')])

prop('C21', 'Each import rule sets its own setting, and `-` restores its default',
     """A line of a rules file sets exactly the setting it names to exactly the value given and no other setting. A value of `-` puts
     exactly that setting back to the value it has when the rule is absent; an unknown rule name or a rule without a value is an error.""",
     ['inputs', 'configurations'], 'every rule line',
     'One test parses one rules file without any reset.',
     ['src/importer.rs'], [('rule table', 'src/importer.rs Rules::add_from_line'), ('defaults', 'src/importer.rs Rules::default')])

prop('C22', 'Comments are inert',
     """Everything from the first `//` or `;` to the end of a line, and white space before it, has no effect on what is read from
     a journal or rules file; a line with only a comment is a blank line. Everything before it is read.""",
     ['inputs'], 'every line with a comment anywhere',
     'Tests contain no comment.',
     ['src/utils.rs', 'src/ledger/mod.rs', 'src/importer.rs', 'src/entry.rs', 'src/posting.rs', 'src/envelope.rs', 'src/account.rs'],
     [('comment removal', 'src/utils.rs remove_comments')])

prop('C23', 'Every command does what its name says on the chosen journal',
     """The journal is the one given with -f or --file, else the one named by SILVERFOX_FILE, else by LEDGER_FILE. The command, chosen by
     its first letter, runs its own report (b balances, e envelopes, r register, i import) and no other; every flag sets its
     own value, later flags winning, and a flag that is unknown or lacks its value is an error.""",
     ['inputs', 'configurations'], 'every command line and environment',
     'No test runs a command line.',
     ['src/flags.rs'], [('dispatch', 'src/flags.rs CommandFlags::execute'), ('flags', 'src/flags.rs CommandFlags::parse_from_env')])

prop('C24', 'A second definition of the same thing is an error',
     """Defining an account name twice, an envelope name twice within one account and kind, or using a CSV field name for two columns of a record is an error; the
     first definition is never silently replaced or merged. Names that differ are never mistaken for duplicates.""",
     ['inputs'], 'every set of definitions',
     'No test defines anything twice.',
     ['src/ledger/mod.rs', 'src/account.rs', 'src/importer.rs'],
     [('duplicate checks', 'Ledger::parse_account, Account::add_envelope, Rules::get_entry_from_record')])

prop('C25', 'A written entry has every part in the form the reader takes it apart',
     """An entry written to the journal has every part it was made of, in the form the reader expects: date in the journal's
     format, status, description, payee in square brackets, comment behind `//`, and each posting on an indented line with its account,
     amount, cost and balance marked the way the reader takes them apart; amounts with their symbol and at least eight decimals. Nothing is left out and nothing else is added.""",
     ['inputs'], 'every generated entry',
     'No test writes an entry.',
     ['src/entry.rs', 'src/posting.rs', 'src/amount.rs'], [('writer', 'Entry::as_parsable, Display of Posting, Cost, Amount'), ('reader', 'Entry::parse, Posting::parse')])

prop('C26', 'The configured date format and decimal symbol are used throughout',
     """Until a line sets them, dates are read as year/month/day and the decimal symbol is the point. Once a line sets the date format of a journal, it stays set (in included files too), and every later date of the journal is read in
     that format (entries, due and starting dates of envelopes); dates of generated entries and of the register are written in it. Dates
     and amounts of a CSV import are read in the deciding rules' date format and with their decimal symbol. In an amount, digits, the minus sign and the
     decimal symbol make the number, the decimal symbol being its point; every other point or comma is dropped; everything else is its
     currency symbol, kept as written; two minus signs in a row cancel each other.""",
     ['inputs', 'configurations'], 'every journal and rules file',
     'Tests use the default format, and the CSV test one other.',
     ['src/ledger/mod.rs', 'src/entry.rs', 'src/account.rs', 'src/envelope.rs', 'src/importer.rs'],
     [('format handed down', 'Ledger::parse_entry, Ledger::parse_account, Ledger::append_entries, Rules::get_entry_from_record')])

prop('C27', 'Due dates match the schedule',
     """The next due date of an envelope is the first date on its schedule that is after today and not before its starting date: the named weekday;
     every other week from the first such weekday not before the starting date; the named day of the month, or the month's last day if it has
     no such day; the same every other month from the first such date not before the starting date, always with the named day; the day of the
     year of an annual date. A one-off envelope is next due on its date if that is still to come; it and an envelope that is never due have no
     next due date otherwise. The last due date is the schedule's date one period before the next one; for a one-off envelope its date, once over.""",
     ['inputs'], 'every schedule and every today within chrono\'s range',
     'The value depends on the month, weekday and today; the tests check two subtractions of months.',
     ['src/envelope.rs'],
     [('next', 'Envelope::get_next_due_date, Frequency::get_next_due_date'), ('last', 'Frequency::get_last_due_date'), ('first dates', 'Frequency::parse, Frequency::next_date_by_day_of_month')])

prop('C28', 'Written amounts keep their value',
     """Reading back a written amount gives the same magnitude to eight decimals and the same currency, for every representable amount.""",
     ['inputs'], 'every amount',
     'Tests parse a few amounts.',
     ['src/amount.rs'], [('format and parse', 'src/amount.rs Amount')])

prop('C29', 'A journal is read as it is written',
     """A chunk of a journal (a line that is not indented, with the indented lines below it) whose first word is account, currency, date_format
     or include is that definition, setting or inclusion, with its second word as value; any other chunk is an entry. An accepted entry has
     exactly the date, status, description and payee of its header and one posting, in order, for each line below it, with the account, the
     amount (up to the first `@`, `=`, `!` or `!!`), cost and balance written there (an envelope posting has the account, envelope name and amount
     written). The entry is added to the ledger once, and every account it touches is told of it. An accepted account has the name written in
     its definition; several words are an error.""",
     ['inputs'], 'every journal',
     'Tests read a few well-formed postings; what happens to the other parts of a journal is not looked at.',
     ['src/ledger/mod.rs', 'src/entry.rs', 'src/posting.rs', 'src/account.rs'],
     [('chunk dispatch', 'Ledger::parse_chunk'), ('entries', 'Entry::parse, Posting::parse'), ('accounts', 'Account::parse')])

prop('C30', 'An envelope is what its definition says',
     """An accepted envelope has the kind its first word names (expense, goal), the second word as name and the account it is defined in; it
     starts holding nothing and with manual funding. Every line below its header is read: `for` links exactly the account named (several
     words are an error), `amount` sets the amount and the currency of what the envelope holds, `funding` sets the method named; an unknown
     or blank property is an error. Its schedule is what stands behind the last `by` or, without one, `due`, up to `starting`; `no date` is never due; `every X` is weekly, monthly
     or, from its starting date, annual; `every other X` needs a starting date and keeps the day it names; a date is due once, on that
     date. Its starting date is what stands behind `starting`.""",
     ['inputs'], 'every envelope definition',
     'No test reads an envelope.',
     ['src/envelope.rs', 'src/account.rs'],
     [('header', 'Envelope::from_header, Envelope::extract_starting, Envelope::extract_frequency'), ('body', 'Envelope::add_body'), ('schedule', 'Frequency::parse')])

prop('C31', 'A report shows all of what it is about',
     """Balances: one line for each account, with its name and its whole total. Envelopes: every account that has any, with every nonzero
     amount it has available, and under their own headings all its expense and goal envelopes, each with its name, what is saved for now
     (never shown below zero) and for next (less what is overspent now), both beside its amount, and the next due date if it has one. Register:
     each entry shown has its date, status and description, the account money comes from and the one it goes to ((none) and (multiple) if there
     is not exactly one), and for every currency what the selected accounts gained or lost by it beside the running total of all lines so far, its own
     included. Nothing is cut off.""",
     ['inputs'], 'every journal',
     'No test runs a report.',
     ['src/ledger/mod.rs', 'src/ledger/register.rs', 'src/account.rs', 'src/envelope.rs', 'src/entry.rs'],
     [('balances', 'Ledger::display_flat_balance'), ('envelopes', 'Account::display_envelopes, Display for Envelope'), ('register', 'Entry::as_register_data, Register::display')])

NA = {
    'C28': 'Decimal formatting and parsing of floating-point numbers is a numeric round trip; static analysis of the source cannot bound it.',
}

TECH = {}
NOTE = {}
DEFTECH = 'abstract interpretation of MIR: path-partitioned value-flow summaries compared with the property, partition by partition'
DEFNOTE = ('Decided from the compiler\'s MIR of the working tree without running it. A violation names the function, line and path condition. '
           'Trusts the library models in sfx/models.py; code of a shape the analysis cannot interpret is reported as inconclusive in the evidence, not as a violation.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'sfx', 'rules', i.lower() + '.py')):
            src = open(os.path.join(ROOT, 'sfx', 'rules', i.lower() + '.py')).read()
            ns = {}
            for l in src.split('\n'):
                if l.startswith(('TECHNIQUE =', 'NOTE =')):
                    exec(l, ns)
            checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s thorough' % i,
                               technique=ns.get('TECHNIQUE', DEFTECH), level='other', level_note=ns.get('NOTE', DEFNOTE)))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
             notes='Static analysis of the MIR of /repo; no hooks in /repo are needed.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed,', len(na), 'not')


main()
