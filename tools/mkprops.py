#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": obs or [], "hook_needed": None}})
IR="1pass-parse/repo/file/itemrepo.go"; PR="1pass-parse/repo/file/profilerepo.go"; CR="1pass-parse/repo/file/configrepo.go"
KS="1pass-core/core/service/keyservice.go"; IS="1pass-core/core/service/itemservice.go"; US="1pass-core/core/service/updateservice.go"; VS="1pass-core/core/service/vaultservice.go"
VF="1pass-core/core/facade/vaultfacade.go"; UF="1pass-core/core/facade/updatefacade.go"; CC="1pass-term/control/cobra/clicontrol.go"; GC="1pass-term/control/gocui/guicontrol.go"
UP="1pass-up/component/github/updater.go"; GW="1pass-app/gui/1passwidget.go"; GI="1pass-app/gui/itemswidget.go"; GD="1pass-app/gui/detailswidget.go"; GV="1pass-app/gui/versionwidget.go"; GP="1pass-app/gui/passprompt.go"; GG="1pass-app/gui/gocui.go"; CL="1pass-app/cli/cobra.go"; DT="1pass-core/core/domain/datatype.go"

prop("C01","An unlocked vault is shown exactly as it is stored",
 "For every readable vault, after the correct password is given, listing, overview and details together present every stored item of a known category exactly once (its UID, category, title, URL, creation and update time, trashed state, every section and filled-in field, and its notes), each item's values belong to that item, and nothing that is not in the vault appears. The result is the same whatever legal behaviour the operating system shows while the vault is read (short reads, interrupted calls, any directory order) and whatever order in-memory tables are walked in.",
 ["inputs","schedules","fault_sequences"],
 "every vault content (any number of bands and items, any mix of categories, sections, fields, dates, addresses, notes, trashed flags, Unicode), every legal sequence of short/interrupted reads and directory orders, every hash-table iteration order",
 "The tests read one fixed sample vault once on a healthy disk; they do not vary the vault's content or the way the operating system serves it.",
 [IR,PR,KS,IS,DT,CC,VF],
 [("all band files are concatenated and parsed","itemrepo LoadItems"),("overview and details decrypted per item with its own key","itemservice DecodeItems"),("rendering of item","clicontrol GetItemDetails/GetItems")],
 obs=["stdout of 1pass list/overview/details"])
prop("C02","A wrong password opens nothing and reveals nothing",
 "With any password other than the vault's master password (including an empty one, a prefix, a different case, or input that ends early), the program reports that the password is invalid, shows no title, field or other content of any item, and leaves the vault locked; a following attempt with the correct password still opens the vault, after any number of failures. The CLI then ends with a non-zero exit status.",
 ["inputs","histories","fault_sequences"],
 "every wrong password and every sequence of wrong and right attempts, in the CLI and the GUI, including terminals that fail or reach end of file while the password is read",
 "The tests try a single wrong password directly against the facade; histories of attempts, the terminal path and what reaches the screen are not covered.",
 [VF,KS,CC,GW,GP],
 [("master and overview key HMAC checked before anything is decoded","keyservice DecodeOpdata / vaultfacade Unlock"),("error dialog and renewed prompt","1passwidget unlock/closeError")],
 obs=["stdout","exit status","terminal cells"])
prop("C03","Locking forgets the vault; unlocking shows it as stored now",
 "From the moment the user locks the vault until it is unlocked again, no key the user presses (other than giving the correct password) shows any item, count or category of the vault, and nothing of the earlier session remains on the screen. After every unlock the screen presents exactly the items stored in the vault at that unlock, however often it was locked and unlocked and however its files changed in between.",
 ["histories","schedules"],
 "every history of unlock, browse, reveal, lock, failed unlock and outside change of the vault files, at every point of the session",
 "Tests call lock once on an in-memory facade; no test drives the user interface or a changing vault.",
 [VF,IS,IR,GW,GI,GD],
 [("lock clears items and keys","vaultfacade Lock / itemrepo RemoveItems"),("views deleted and cleared on lock","itemswidget lock, 1passwidget lock")],
 state=[{"name":"items","meaning":"decrypted items kept in memory","where":"itemrepo"},{"name":"keys","meaning":"derived keys of the open vault","where":"vaultfacade"}],
 obs=["terminal cells"])
prop("C04","Tampered vault data is never presented as genuine",
 "If any encrypted part of a stored vault (the protected keys in the profile, or an item's overview, details or item key) is altered in any way after it was written, the program never displays text decrypted from the altered part: each value it shows is either what the owner stored or absent, and an altered profile key is rejected like a wrong password. (Exchanging whole, unaltered parts between items is not covered: the vault format does not bind a part to its item.)",
 ["inputs","fault_sequences"],
 "every corruption of any encrypted blob: bit flips, overwritten, truncated, extended or zeroed bytes, at rest or arising while the disk serves the read; of one or of several items at once",
 "The tests verify one correct and one incorrect HMAC; they do not run a damaged vault through the program.",
 [KS,IS,VF],
 [("HMAC over the whole encrypted blob is verified before decryption","keyservice CheckHmac/DecodeOpdata")],
 obs=["stdout","terminal cells"])
prop("C05","A damaged item never takes the rest of the vault down",
 "When the encrypted data of some items is damaged, every other item of the vault is still listed and shown completely and correctly, and the command (or interactive session) finishes normally instead of crashing.",
 ["inputs","fault_sequences"],
 "every subset of damaged items and every kind of damage to their encrypted data (bit flips, truncation to any length including zero, extension, invalid encoding)",
 "No test reads a damaged vault.",
 [KS,IS,IR],
 [("per-item decoding; damaged parts decode to nothing","itemservice DecodeItems, keyservice DecodeOpdata/ItemKeys")],
 obs=["stdout","exit status"])
prop("C06","A failed read never shows a partial vault as complete",
 "If the operating system fails while the vault is opened or read (directory or file cannot be opened, read error after any number of bytes, too many open files, file vanishing meanwhile, a vault file cut short or a block of it lost because its writer was interrupted), the command reports a failure and ends with a non-zero exit status, or it shows the complete and correct result; it never shows some items while silently leaving others out. Once the fault is gone the next run shows the complete vault.",
 ["fault_sequences","crash_points"],
 "every single and multiple failure of a system call touching the vault, at every call and byte position",
 "Tests only run on a healthy disk.",
 [IR,PR,VS,CC],
 [("errors of directory listing and file reads are fatal","itemrepo LoadItems, profilerepo LoadProfile"),("path validation","vaultservice ValidateVault")],
 obs=["stdout","exit status"])
prop("C07","The vault is read-only and side effects stay in their places",
 "No command, interactive session, failure or crash ever creates, changes, renames, deletes or changes permissions of anything inside a vault. The only places the program modifies are its configuration directory below the user's home, its update cache below the temporary directory, and - only while the user runs an update - its own executable and a temporary file beside it.",
 ["histories","fault_sequences","inputs"],
 "every command and key history, with or without faults and hostile server content, wherever the vault, home and executable live",
 "Tests compare a few return values; none observes the file system effects of whole runs.",
 [CR,UP,US,IR,PR],
 [("vault files are only opened for reading","itemrepo/profilerepo"),("fixed locations of config and cache","main, static constants")],
 obs=["every mutating system call"])
prop("C08","Secrets never reach disk or network",
 "The master password, keys derived from it, and decrypted item content are never written to any file and never sent over the network, in any form the outside could read, whatever command is run and whatever fails. Listing and overview never print a field value or notes; only the details view does, and a master password typed at a terminal is not echoed.",
 ["histories","fault_sequences","inputs"],
 "every command, key history, fault and crash point; every vault content",
 "Tests look at return values only; absence of a leak is a statement about every byte the program emits in every run.",
 [CC,CR,UP,GD,IS],
 [("only settings and a timestamp are persisted","configrepo Save, updater CheckTimestamp"),("overview masks values","clicontrol GetItemOverview, detailswidget update")],
 obs=["bytes of every write and of every connection","stdout"])
prop("C09","The GUI shows a secret only for the item being revealed",
 "In the interactive interface a field value or note is visible only while the user has explicitly revealed that very item; moving to another item, covering, going back, locking, failing to unlock or resizing the terminal never leaves or puts another secret on the screen, and covering always hides it again at once. The master password is never visible while it is typed.",
 ["histories","schedules"],
 "every sequence of keys and terminal resizes, interleaved in every way with the background update check",
 "No test drives the interface at all.",
 [GI,GD,GP,GW],
 [("overview shown on every move, details only on TAB","itemswidget showOverview/toggleDetails, detailswidget toggleDetails"),("masked prompt","passprompt")],
 obs=["terminal cells after every flush"])
prop("C10","The highlighted row is the one that opens, and moves stay in range",
 "In the interactive interface, after any sequence of navigation keys (moves, opening, going back, reveal/cover, lock and unlock) on a terminal of fixed size, the highlighted category is the one whose items open, the highlighted item is the one whose overview and details are shown, and the item list shown is exactly the items of that category in listing order. Pressing down at the last or up at the first row changes nothing.",
 ["histories","inputs","configurations"],
 "every key history, vault content and terminal size, including lists longer than the window",
 "No test drives the interface; the selection index and the terminal cursor are separate state that must agree after every history.",
 [GW,GI,GD,GC],
 [("selection index kept in step with view cursor and origin","cursorDown/cursorUp/resetCursor")],
 state=[{"name":"currIdx","meaning":"selected row","where":"1passwidget, itemswidget"}],
 obs=["terminal cells and attributes"])
prop("C11","Settings survive crashes, full disks and concurrent runs",
 "Whenever saving the settings is cut short (process killed or power lost at any instant, disk full, or any failing system call), the stored settings afterwards are exactly the previous ones or exactly the new ones, never lost, mixed or unreadable, and the program still starts and can be configured again. A run that reports the settings as saved has stored them durably enough that the next run uses them, and a run reading at the same time sees either the old or the new ones.",
 ["crash_points","fault_sequences","schedules"],
 "every kill or power-loss point, every failing call and every short or torn write during a save, and every interleaving of a saving run with other runs",
 "The tests save a file once on a healthy disk.",
 [CR,CC],
 [("settings file replaced as a whole","configrepo Save")],
 obs=["settings file after each crash","behaviour of the next run"])
prop("C12","Configuring keeps what the user entered and nothing else changes",
 "After a configuration dialogue each setting holds the user's answer when that answer was valid (yes/no in either case, timeout 1-30, period 0-365, any vault path, including one with spaces), and its previous value when the answer was empty, invalid, out of range or missing because input ended; one answer never affects another setting, and settings the program does not know are preserved. The stored settings govern every later run: default vault, update notification, timeout and period.",
 ["inputs","histories","fault_sequences"],
 "every sequence of dialogues with any lines of input (including end of input at any byte and input arriving in arbitrary pieces) over any previous settings file",
 "Tests save fixed structures through the repository; the dialogue is never driven.",
 [CC,CR,"1pass-core/core/domain/logicval.go","1pass-core/core/service/configservice.go"],
 [("per-question validation","clicontrol Configure"),("defaults and persisted map","configrepo")],
 obs=["settings file","later runs"])
prop("C13","The installed program is always either the old or the complete new one",
 "At every instant of an update and whatever interrupts it (process killed, power lost, any failing or short system call, full disk, connection lost), the installed executable is byte for byte the previous one or the complete new release and stays executable; there is never a moment without a working program, and an update that reports failure leaves the previous one (or the complete new one) in place.",
 ["crash_points","fault_sequences","schedules"],
 "every kill and power-loss point and every fault sequence during download, extraction, verification and replacement, wherever the temporary directory and the executable live, also with two updates running at once",
 "The updater's tests need the network and check nothing offline; none crashes.",
 [US,UP],
 [("binary replaced by rename after verification","updater ReplaceBinary"),("download into a cache directory first","updateservice Update")],
 obs=["content and mode of the executable after every system call and after each crash"])
prop("C14","Only a download that matches its published checksum is installed",
 "The installed executable changes only to content whose MD5 equals the checksum published with that release; if the program in the archive or the checksum arrives truncated, altered, empty, as an error page or not at all, or the archive lacks the program or carries files posing as the downloads themselves, the update fails with a message and a non-zero exit status and the old program stays untouched.",
 ["fault_sequences","inputs","schedules"],
 "every way in which downloads can be cut, altered, swapped or served with an error status, every archive layout, every disk fault while they are stored, and changes made to the cache by a second update running meanwhile",
 "No test runs an update against a misbehaving server or disk.",
 [US,UP],
 [("checksum validated before replacing","updateservice Update, updater ValidateChecksum")],
 obs=["executable","exit status","stdout"])
prop("C15","A reported update is complete, and an interrupted one can be repeated",
 "When the update command reports success, the running program's file is exactly the new release, executable, with the update cache removed; an update that ends by itself, successful or not, leaves no other file beside the program; and a success is always reported when the server delivers a proper newer release and the system does not fail. After any crash or failure of earlier attempts, once faults stop the next update succeeds in the same way, whether or not the temporary directory is on the same file system as the program.",
 ["crash_points","fault_sequences","histories","configurations"],
 "every history of interrupted attempts followed by a fault-free one; every placement of temporary directory and executable; every legal network delivery (delays, fragmentation, redirects) that never falls silent for longer than the configured timeout",
 "The updater's tests need the network and check nothing offline.",
 [US,UP],
 [("cache directory recreated at start, removed at end","updateservice Update"),("replacement of the executable","updater ReplaceBinary")],
 obs=["executable content and mode","cache directory","stdout","exit status"])
prop("C16","A release archive can only write inside the update cache",
 "Whatever names, types and sizes the entries of a downloaded archive have (absolute paths, parent-directory steps, links, devices, names of other downloads), extracting it creates or changes no file outside the update cache, and files already there that belong to the download (archive and checksum) are not replaced.",
 ["inputs","fault_sequences"],
 "every archive content, together with delivery faults and pre-existing links in the cache",
 "No test extracts a hostile archive.",
 [UP,US],
 [("target path built from entry name, only regular files extracted","updater ExtractArchive")],
 obs=["every mutating system call"])
prop("C17","Nothing is installed without consent, nor unless strictly newer",
 "The installed program is replaced only in a run of the update command in which the user answered yes after being told the available version, and only if the published release's version is strictly greater than the running one, compared number by number; any other answer, end of input, equal, older or unreadable version, or a release that changes between question and download to one that is not newer, leaves everything in place.",
 ["inputs","histories","schedules"],
 "every answer, every pair of versions, every change of the published releases between the requests of a run, every other command and GUI session",
 "Tests compare against one recorded server state.",
 [CC,US,UP],
 [("explicit question","clicontrol Update"),("version comparison","updater CheckForUpdate"),("second check before download","updateservice Update")],
 obs=["executable","network requests"])
prop("C18","Automatic update checks respect the settings, on any clock",
 "A vault or configuration command of the command line (the interactive interface checks at each start instead, see C22) on a configured installation contacts the update server at most once (the first run, which includes the configuration dialogue, at most once before and once after it), and only if notifications are on and the configured number of days has passed since the last completed check (or no valid record of it exists, or the record lies in the future); with notifications off it never touches the network. A newer release found by the check is announced, and nothing is announced otherwise. A completed check is recorded so that the next check waits the full period; clock jumps in either direction, missing, corrupt or unreadable records never stop checks for longer than the configured period nor cause a failure.",
 ["histories","fault_sequences","schedules"],
 "every history of commands at any times with forward and backward clock jumps, corrupt or unwritable timestamp files and failing servers",
 "The tests ask once whether to check, on a real clock.",
 [UP,US,UF,CC],
 [("timestamp file and elapsed days","updater ShouldCheck/CheckTimestamp"),("notification setting","clicontrol CheckForUpdate")],
 state=[{"name":"lastcheck","meaning":"unix time of the last completed check","where":"configuration directory"}],
 obs=["connections opened","timestamp file"])
prop("C19","The update server can neither block nor break a vault command",
 "Whatever the network or the update server does (no route, name lookup failing, silence at any stage, endless or malformed answers, missing or oddly typed fields, error statuses, resets), every command still performs its own task correctly, does not crash, and waits for the update check no longer than the configured timeout; an update command that cannot proceed ends with an error message and a non-zero exit status.",
 ["fault_sequences","inputs","schedules"],
 "every network fault at every stage of the exchange and every response body, for every configured timeout",
 "The tests never see a misbehaving server.",
 [UP,US,CC],
 [("errors of the check are ignored by commands","clicontrol CheckForUpdate"),("HTTP timeout","updater httpClient")],
 obs=["stdout","simulated time","exit status"])
prop("C20","Release data is accepted only from the authenticated server",
 "Release information and downloads are used only if they arrive over an encrypted connection whose certificate is valid for the contacted host at that time and issued by a trusted authority; an impostor (self-signed, wrong host, expired, untrusted issuer, or a downgrade to plain text) can neither have its data shown or installed nor receive anything but the attempt to connect.",
 ["inputs","fault_sequences"],
 "every impostor certificate or plain-text downgrade on any of the connections of a check or update, including after redirects",
 "Tests only ever talk to the genuine server, or to none.",
 [UP],
 [("HTTPS URLs and default certificate verification","updater httpClient, GithubReleases URL")],
 obs=["stdout","connections","executable"])
prop("C21","Listings are complete, filtered as asked and always in the same order",
 "A listing contains exactly the items matching all given filters (category, case-insensitive part of the title, trashed or not), ordered by category and then title, numbered from one; two runs over the same vault print the identical listing. UIDs shown by a listing identify exactly that item in overview and details, and an item is found only with the matching trashed flag.",
 ["inputs","schedules"],
 "every vault content (including equal titles and items spread over many bands), every filter, every directory and hash-table order",
 "Tests sample a fixed vault; the order depends on hash-table iteration and directory order that a test run does not control.",
 [IS,IR,CC],
 [("filter and sort","itemrepo FindByCategoryAndTitleAndTrashed, itemservice GetSimpleItems")],
 obs=["stdout"])
prop("C22","The GUI stays responsive while updates are checked, and reports the outcome",
 "The interactive interface reacts to every key at once whatever the network does, and the outcome of its background update check, made once at each start (new version, up to date, or failed), appears on screen when the check finishes or times out, without any key being pressed, exactly once, and without disturbing anything else shown.",
 ["schedules","fault_sequences"],
 "every interleaving of key events, resizes and the progress, failure or stall of the background check",
 "No test drives the interface or its background activity.",
 [GV,GG,UP],
 [("check runs in its own goroutine and updates its view","versionwidget Layout/update")],
 obs=["terminal cells","simulated time"])
prop("C23","No key or terminal event crashes the GUI, and Ctrl+Q always quits",
 "Whatever keys are pressed in whatever order, whatever the vault contains (including nothing) and however a terminal of usable size is resized, the interactive interface neither crashes nor ends by itself; Ctrl+Q ends it at any point with exit status zero and the terminal restored.",
 ["histories","inputs","schedules"],
 "every key and resize history over every vault content and background-check outcome",
 "No test drives the interface.",
 [GW,GI,GD,GP,GG,GV],
 [("handlers guard their indices","widgets"),("global quit binding","gocui.go Run")],
 obs=["exit status","terminal closed"])
prop("C24","A failed command says so",
 "Whenever a command does not achieve its purpose because of an unknown command, flag or category, a missing argument, an invalid vault path, wrong password, failed read or write of a file, or failed update, it prints a message and ends with a non-zero exit status; whenever it prints its normal result (saved settings, listing, item, updated) that result really holds. No failure ends in a crash trace.",
 ["fault_sequences","inputs"],
 "every command with every single failing system call or network step",
 "Tests never observe exit statuses or injected failures.",
 [CC,CR,VS,US,UP,IR,PR],
 [("errors printed followed by exit 1","clicontrol"),("fatal logging in repositories","configrepo, itemrepo, profilerepo")],
 obs=["stdout","stderr","exit status"])
prop("C25","Category codes and names map one to one",
 "Every known category code of the vault format has exactly one name and every name leads back to that category, in any letter case.",
 ["inputs"],"every code and name string","The tests cover it largely; it is a pure lookup.",
 ["1pass-core/core/domain/itemcategory.go"],[("registry lookup","itemcategory.go")])
prop("C26","Keys and passwords leave no trace in memory after locking",
 "After locking, neither the master password nor derived keys nor decrypted content can be recovered from the process's memory.",
 ["histories"],"every session","Requires inspecting process memory.",
 [VF,KS,GW],[("references dropped on lock","vaultfacade Lock")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
