"""writes /verif/properties.jsonl"""
import json, os
P = []
SRV = 'src/server/'


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=''):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'state': [{'name': a, 'meaning': b} for a, b in state],
                          'observe_at': [observe] if observe else [], 'hook_needed': False}})


p('C01', 'One token state per configured account; state versions are never reused',
  'At every moment the server holds exactly one token state for every configured account and none for any other account. Every version identifier handed out for an account state is '
  'new (no identifier is ever used twice, and none at or above the next one to be handed out is in use), so work begun against an old state can always be told from work on the current one.',
  ['schedules', 'histories', 'inputs'], 'every interleaving of requests, reloads, refreshes, callbacks, notifications, dumps and restores, in any order and number',
  'The state tests run two or three hand-picked sequences on one thread; the claim is about every sequence of critical sections of all the threads.',
  [SRV + 'state.rs', SRV + 'mod.rs', SRV + 'refresher.rs', SRV + 'http_server.rs', SRV + 'notifier.rs'],
  [('version identifiers and rows', SRV + 'state.rs: LockedState, CTGuard::tokenstate_replace, update_conf'), ('the global lock', SRV + 'state.rs: AuthenticatorState::ct_lock')],
  [('account states', 'one row (name, version, token state) per configured account')], 'pizauth status / show')

p('C02', 'A reload never carries a token over to changed security settings',
  'After a configuration reload an account holds a token or a pending authentication only if that account existed before with identical authentication URI, token URI, client identifier, '
  'client secret, redirect URI, scopes and extra authentication fields. An account that is new or whose settings changed starts with no token, under a version identifier never used before.',
  ['configurations', 'histories', 'inputs'], 'every pair of accepted configurations and every state in which the reload can happen',
  'test_conf_update checks a handful of configurations; the claim is about all pairs of them and all states.',
  [SRV + 'state.rs', 'src/config.rs', SRV + 'mod.rs'], [('merging a new configuration', SRV + 'state.rs: CTGuard::update_conf'), ('comparison of security settings', 'src/config.rs: Account::secure_eq')],
  [('token state', 'none, pending or active, per account')], 'pizauth reload followed by status / show')

p('C03', 'A reload keeps the tokens of unchanged accounts and drops removed accounts',
  'After a successful reload every account of the new configuration exists and every other account is gone. An account whose security relevant settings are unchanged keeps its token or '
  'pending authentication exactly as it was, and a reload that is rejected changes nothing.',
  ['configurations', 'histories', 'inputs'], 'every pair of configurations, every order of accounts, every state',
  'test_conf_update samples a few configurations; the order of accounts and the states they are in are not quantified over.',
  [SRV + 'state.rs', SRV + 'mod.rs'], [('merging a new configuration', SRV + 'state.rs: CTGuard::update_conf'), ('reload request', SRV + 'mod.rs: request')],
  [], 'pizauth reload followed by status / show')

p('C04', 'Restoring a dump only revives tokens of accounts with unchanged settings',
  'Restoring a dump gives an account a token only if the dump holds a token for an account of that name with identical security relevant settings and the account has no token already; '
  'the token, its refresh token and its remaining life are those of the dump. Every account for which that is so is restored, nothing else changes, and input which is not an intact dump changes nothing and is reported as an error.',
  ['inputs', 'configurations', 'histories'], 'every byte string offered as a dump, every configuration, every state before the restore',
  'No existing test restores a dump into a different configuration or a damaged dump.',
  [SRV + 'state.rs', SRV + 'mod.rs'], [('restore', SRV + 'state.rs: AuthenticatorState::restore; SDump')], [], 'pizauth restore followed by show')

p('C05', 'A dump holds exactly the active tokens and is sealed',
  'A dump contains, for every account holding an active token, that token with its refresh token and times, together with a fingerprint of the security settings of that account, and it holds nothing that is merely pending. What is written out is '
  'encrypted and authenticated, and dumping changes nothing.',
  ['histories', 'configurations'], 'every state in which a dump can be made',
  'No existing test makes a dump.',
  [SRV + 'state.rs', SRV + 'mod.rs'], [('dump', SRV + 'state.rs: AuthenticatorState::dump; SDump')], [], 'pizauth dump')

p('C06', 'A refresh only ever changes the token it was started for',
  'Whatever a token refresh does -- storing a new token, counting a failure, discarding the token -- it does to the account state it was started for and only while that state is still the current one. '
  'If the account was reloaded, revoked, re-authenticated or restored in the meantime, the result of the refresh is discarded and no other account is ever affected.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of a refresh with every other thread, every reply of the server',
  'The race needs another request between the network request and the update; the tests have neither network nor threads.',
  [SRV + 'refresher.rs', SRV + 'state.rs'], [('refresh', SRV + 'refresher.rs: Refresher::refresh'), ('version check', SRV + 'state.rs: CTGuard::is_act_id_valid')], [], 'pizauth status during a refresh')

p('C07', 'A browser callback only ever changes the account whose request it answers',
  'The handling of a browser callback -- completing or failing an authentication -- changes only the account whose pending request it matched, and only while that very request is still the current state of the account. '
  'If the request was superseded in the meantime, the callback has no effect.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of a callback with every other thread, every reply of the token endpoint',
  'The race needs a reload or a revocation during the exchange of the code; no test does that.',
  [SRV + 'http_server.rs', SRV + 'state.rs'], [('callback', SRV + 'http_server.rs: request, fail'), ('version check', SRV + 'state.rs: CTGuard::is_act_id_valid')], [], 'pizauth show after a callback')

p('C08', 'A callback counts only with the right scheme, host, port and secret state',
  'A request to the local HTTP or HTTPS listener changes an account or makes pizauth contact the token endpoint only if its scheme, host and port are those of the redirect URI of an account with a pending authentication and '
  'its state parameter is the secret value generated for that pending authentication. Any other request changes nothing.',
  ['inputs', 'histories'], 'every request that can be sent to the listeners, in every state',
  'The request handler has no tests.',
  [SRV + 'http_server.rs'], [('matching the request', SRV + 'http_server.rs: request')], [], 'HTTP requests to the listeners')

p('C09', 'Authentication uses fresh secrets, PKCE S256 and the account\'s own settings',
  'The URL a user is sent to is the authentication URI of the account asked for, carrying a fresh random state value, the S256 challenge of a fresh random code verifier, the client identifier, scopes, redirect URI (with the port really listened on) and '
  'extra fields of that account. The code is exchanged with the very code verifier and redirect URI of that request.',
  ['inputs', 'configurations', 'histories'], 'every configuration, every request, every state',
  'No test builds an authentication URL.',
  [SRV + 'request_token.rs', SRV + 'http_server.rs'], [('authentication URL', SRV + 'request_token.rs: request_token'), ('code exchange', SRV + 'http_server.rs: request')], [], 'URL shown by pizauth show; POST to the token endpoint')

p('C10', 'Credentials go only to their owner: the asking user and their own endpoint',
  'An access token leaves pizauth only as the reply to a request to show the token of that account, while it has not expired, and a token that has not expired is shown when asked for. Refresh tokens, code verifiers and client secrets are only sent to '
  'the token URI of the account they belong to; no credential appears in any other reply, command, environment variable or file, save in the encrypted dump.',
  ['inputs', 'histories', 'configurations'], 'every request, every state, every thread',
  'The claim is about the absence of a flow on every path of every thread.',
  [SRV + 'mod.rs', SRV + 'refresher.rs', SRV + 'http_server.rs', SRV + 'notifier.rs', SRV + 'eventer.rs'], [('showtoken', SRV + 'mod.rs: request'), ('POST requests', SRV + 'refresher.rs: Refresher::inner_refresh; http_server.rs: request')], [], 'replies on the control socket, spawned commands, POSTs')

p('C11', 'Temporary refresh errors keep the token; permanent ones discard it',
  'When a refresh fails because of a network problem (no connection, a timeout, a reply cut short) the token is kept, the failure is counted and the time of the attempt is recorded. When the token endpoint rejects the refresh or answers with nonsense the token is discarded. '
  'If a command to judge repeated temporary errors is configured it is run, for that account, after every sixth consecutive failure; if it fails the token is discarded.',
  ['fault_sequences', 'inputs'], 'every reply and every network failure, any number of consecutive failures',
  'Tests have no token endpoint.',
  [SRV + 'refresher.rs'], [('refresh', SRV + 'refresher.rs: Refresher::refresh, inner_refresh')], [], 'pizauth status after failed refreshes')

p('C12', 'A good token reply is stored faithfully, and only a good reply',
  'When the token endpoint answers with a bearer token, the access token of the reply is stored with an expiry of its arrival plus its stated life time, marked as not being refreshed and with no failures. The refresh token stored is the one of the reply; if a refresh reply has none, the previous one is kept. '
  'No reply that is an error or lacks any of these ever makes a token valid.',
  ['inputs', 'fault_sequences'], 'every body a token endpoint can answer with',
  'Tests have no token endpoint, and replies range over all JSON documents.',
  [SRV + 'refresher.rs', SRV + 'http_server.rs'], [('storing a reply', SRV + 'refresher.rs: Refresher::inner_refresh; http_server.rs: request')], [], 'pizauth show after authentication or refresh')

p('C13', 'At most one refresh of a token is in flight, and its mark is always removed',
  'A refresh contacts the token endpoint only if no other refresh of that token is under way, and sends one request. When it has ended -- however it ended -- the token, if it still is the same, is no longer marked as being refreshed, so that later refreshes are possible; nothing but a refresh sets that mark.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of refreshes with each other and with everything else; every way a refresh can fail',
  'Needs two threads and a failing endpoint.',
  [SRV + 'refresher.rs'], [('mark of an ongoing refresh', SRV + 'refresher.rs: Refresher::refresh, sched_refresh')], [], 'POSTs to the token endpoint')

p('C14', 'Refreshes happen on schedule',
  'A token that is not being refreshed is due for a refresh at the earlier of a set time before its expiry and a set time after it was obtained, or, after a failed attempt, a set time after that attempt; at no other time. The refresh thread starts a refresh of exactly the tokens that are due and sleeps no longer than until the next one is due.',
  ['schedules', 'inputs', 'histories', 'configurations'], 'every combination of times and settings, every number of accounts',
  'The times range over all clock readings and settings; no test covers the scheduling.',
  [SRV + 'refresher.rs'], [('time of the next refresh', SRV + 'refresher.rs: Refresher::refresh_at'), ('refresh thread', SRV + 'refresher.rs: Refresher::refresher')], [], 'POSTs to the token endpoint over time')

p('C15', 'The most specific refresh setting wins',
  'Each of the refresh settings (time before expiry, least refresh interval, retry interval) takes the value given for the account if there is one, otherwise the global one, otherwise the documented default.',
  ['configurations'], 'every combination of settings given and not given, every value',
  'Tests cover one or two configurations.',
  ['src/config.rs', SRV + 'refresher.rs'], [('setting look-up', 'src/config.rs: Account::refresh_at_least, refresh_before_expiry, refresh_retry')], [], 'time of refreshes')

p('C16', 'Users are reminded of pending authentications at the configured interval',
  'An authentication is announced by running the configured command, with the name and URL of the account, when it becomes pending and again each time the configured interval has passed, never more often. Announcing it changes nothing but the time it was last announced.',
  ['schedules', 'histories', 'configurations'], 'every number of pending accounts, every interval, every interleaving',
  'The notifier has no tests.',
  [SRV + 'notifier.rs'], [('notifier thread', SRV + 'notifier.rs: Notifier::notifier')], [], 'runs of the notification command')

p('C17', 'Every change of a token is told to the event command, in order',
  'When an account gains a token by authentication, has it refreshed, loses it because it became invalid, or has it revoked, exactly one matching event is queued for that account, and no event is queued for a change that did not happen. Events reach the configured command one at a time, in order, with the right account and event name, and each run has a bounded time.',
  ['schedules', 'histories', 'fault_sequences'], 'every history of changes, every interleaving of the event thread with the others',
  'Events and their queue have no tests.',
  [SRV + 'eventer.rs', SRV + 'refresher.rs', SRV + 'http_server.rs', SRV + 'mod.rs'], [('event queue', SRV + 'eventer.rs: Eventer'), ('queueing', SRV + 'refresher.rs, http_server.rs, mod.rs: calls of token_event')], [], 'runs of token_event_cmd')

p('C18', 'No request, reply or configuration can crash a server thread',
  'No input -- a request on the control socket, an HTTP request, a reply of a token endpoint, a restored dump, an accepted configuration -- and no passage of time makes a thread of the server panic (which would end the server) or wait for a lock that it itself holds.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'], 'every input of every request handler and thread, in every state',
  'Overflowing dates, odd replies and races are not among the sampled inputs.',
  [SRV + 'mod.rs', SRV + 'state.rs', SRV + 'refresher.rs', SRV + 'http_server.rs', SRV + 'notifier.rs', SRV + 'eventer.rs'], [('whole server', SRV)], [], 'the server keeps answering')

p('C19', 'An HTTP request is read within a bounded size',
  'The listeners read a bounded number of bytes of any HTTP request, however it is split into lines, before they answer it or give it up, and at the end of the input they stop. A request is accepted only if its first line is GET, a path and a version and exactly one of its header fields is Host; it then stands for that path at that host with the scheme of the listener. Any other request is answered with an error and changes nothing.',
  ['inputs'], 'every byte stream a client can send',
  'The HTTP parser has no tests.',
  [SRV + 'http_server.rs'], [('request parser', SRV + 'http_server.rs: parse_get')], [], 'HTTP requests to the listeners')

p('C20', 'Revoking removes exactly the token asked for',
  'A revoke request for an account removes its token or pending authentication, whatever state it is in, makes all work still under way for the old state void, and leaves every other account alone. It is acknowledged exactly when it was done; an unknown account is reported as an error and changes nothing.',
  ['inputs', 'histories', 'schedules'], 'every request and every state',
  'The request handler has no tests.',
  [SRV + 'mod.rs'], [('revoke', SRV + 'mod.rs: request')], [], 'pizauth revoke followed by show')

p('C21', 'The server never waits for others while it holds its state',
  'No thread of the server holds the lock on the account states while it waits for something that another party decides: an HTTP reply, a child process, a timer, a peer on a socket, or another condition. A token endpoint or a command that is slow or never answers therefore never blocks requests for other accounts.',
  ['schedules', 'fault_sequences'], 'every thread, every path, every peer behaviour',
  'Blocking depends on the peers\' timing.',
  [SRV + 'mod.rs', SRV + 'state.rs', SRV + 'refresher.rs', SRV + 'http_server.rs', SRV + 'notifier.rs', SRV + 'eventer.rs'], [('the global lock', SRV + 'state.rs: AuthenticatorState::ct_lock')], [], 'status requests during slow operations')

p('C22', 'Every accepted configuration can be served',
  'A configuration is accepted only if it has at least one account, at least one listener is enabled, the URIs of every account are HTTP or HTTPS URIs, the listener for the redirect URI of every account is enabled, every account has all required settings, and no setting is given twice. Everything else is rejected with an error, and the server never panics over it. In an accepted configuration every setting has the value given for it, or its documented default.',
  ['configurations', 'inputs'], 'every configuration file',
  'Tests reject a handful of faulty configurations.',
  ['src/config.rs', 'src/config.y', 'src/config.l'], [('configuration checks', 'src/config.rs: Config::from_str, Account::from_fields')], [], 'pizauth server / reload')

p('C23', 'Status lists every account exactly once with its true state',
  'The status reply has one line per configured account, with the state that account is in at that moment, and never a credential.',
  ['histories', 'configurations'], 'every number of accounts, every combination of states',
  'The status request has no tests.',
  [SRV + 'mod.rs'], [('status', SRV + 'mod.rs: request')], [], 'pizauth status')

p('C24', 'The client reports success only on success',
  'A client command sends the server exactly the request it was asked for, and exits with success only if the server acknowledged it; it prints a token, a status or a dump only as given by the server, and in full. An error, an unknown reply, or a result that cannot be written is reported on standard error with a failing exit status (info, which tells whether a server runs, excepted).',
  ['inputs', 'fault_sequences'], 'every reply the server can give',
  'The client has no tests.',
  ['src/user_sender.rs', 'src/main.rs'], [('client', 'src/user_sender.rs')], [], 'exit status of pizauth show / reload / revoke')

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
